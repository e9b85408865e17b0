//! C24: random programs over the whole API, for sanitizers and for the allocation balance.
use crate::ctx::{self, Ctx, Fail, R};
use crate::gen::{self, Opt};
use crate::mem;
use crate::model::Model;
use crate::own::{inner, Nested, Own};
use crate::rng::{Key, Rng};
use gamma::graph::{DefaultGraph, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst};
use std::convert::TryFrom;

/// What a program did; kept out of the heap while the balance is taken.
#[derive(Default, Clone, Copy, Debug)]
pub struct Did { pub ops: u64, pub refused: u64, pub abandoned: u64, pub matchings: u64, pub panics: u64, pub consumed: u64, pub hash: u64 }

fn quiet<T>(d: &mut Did, f: impl FnOnce(&mut Did) -> T) -> Option<T> {
    let mut e = *d;
    let depth = ctx::slot(1);
    depth.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut e)));
    depth.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    let out = match r { Ok(v) => { *d = e; Some(v) } Err(_) => { d.panics += 1; ctx::forget_panic(); None } };
    d.ops += 1;
    out
}
fn iterate<G: Graph>(g: &G, roots: &[usize], r: &mut Rng, d: &mut Did, lim: usize) {
    if roots.is_empty() { return; }
    let root = *r.pick(roots);
    let whole = r.pct(60);
    let k = if whole { lim } else { r.below(6) };
    if !whole { d.abandoned += 1; }
    d.consumed += match r.below(6) {
        0 => DepthFirst::new(g, root).map(|i| i.take(k).map(|s| s.tid & 1).count()).unwrap_or(0),
        1 => BreadthFirst::new(g, root).map(|i| i.take(k).map(|s| s.tid & 1).count()).unwrap_or(0),
        2 => components(g).take(k).map(|c| c.order()).sum::<usize>(),
        3 => DepthFirst::new(g, root).map(|i| i.into_table().0.len()).unwrap_or(0),
        4 => DepthFirst::new(g, root).ok().and_then(|t| DefaultGraph::try_from(t).ok()).map(|h| h.size()).unwrap_or(0),
        _ => { // several at once, dropped in any order
            let a = DepthFirst::new(g, root);
            let b = BreadthFirst::new(g, root);
            let mut c = components(g);
            let mut n = 0;
            if let (Ok(mut a), Ok(mut b)) = (a, b) {
                for _ in 0..k.min(lim) { n += a.next().is_some() as usize + b.next().is_some() as usize; if n > lim { break; } }
                let kept = c.next();
                if r.pct(50) { drop(a); n += b.count(); } else { drop(b); n += a.count(); }
                drop(c);
                n += kept.map(|k| k.order()).unwrap_or(0);
            }
            n
        }
    } as u64;
}
fn matchings<G: Graph>(g: &G, r: &mut Rng, d: &mut Did, extra: bool) {
    let many = g.order() > 300;
    let mut p = if many || r.pct(50) { greedy(g) } else { Pairing::new() };
    d.matchings += 1;
    if r.pct(80) && g.order() < 1200 { maximum_matching(g, &mut p); }
    d.consumed += p.edges().count() as u64;
    let mut q = Pairing::new();
    for (a, b) in p.edges() { q.pair(b, a); }
    d.hash ^= (p == q) as u64;
    if extra {
        // valid and rejected uses of a pairing
        let n = r.range(0, 7);
        let path: Vec<usize> = (0..n).collect();
        if n % 2 == 1 { d.refused += 1; }
        quiet(d, |_| p.augment(path));
        quiet(d, |_| q.mate(usize::MAX - 7));
    }
}

/// One program: builds graphs by all routes, refused ones included, uses and drops them.
pub fn program(r: &mut Rng, max: usize) -> Did {
    let mut d = Did::default();
    let rounds = r.range(1, 3);
    for _ in 0..rounds {
        let s = gen::shape(r, max);
        let sp = gen::spec(r, s, Opt { own: 20, ..Opt::default() });
        let m: &Model = &sp.model;
        d.hash ^= sp.key().get();
        let lim = 2 * m.m() + m.n() + 16;
        if sp.is_default() {
            let g = quiet(&mut d, |_| sp.graph().ok()).flatten();
            let mut g = match g { Some(g) => g, None => continue };
            for _ in 0..r.range(1, 5) {
                match r.below(4) {
                    0 | 1 => { quiet(&mut d, |d| iterate(&g, &m.nodes, r, d, lim)); }
                    2 => { quiet(&mut d, |d| matchings(&g, r, d, true)); }
                    _ => { // grow, partly in vain
                        let (a, b) = (r.below(2 * max), r.below(2 * max));
                        quiet(&mut d, |d| {
                            if g.add_node(a).is_err() { d.refused += 1; }
                            if g.add_edge(a, b).is_err() { d.refused += 1; }
                            if g.add_edge(usize::MAX - 3, b).is_err() { d.refused += 1; }
                            if g.has_edge(a, b).is_err() { d.refused += 1; }
                            if g.neighbors(usize::MAX - 4).is_err() { d.refused += 1; }
                            if BreadthFirst::new(&g, usize::MAX - 5).is_err() { d.refused += 1; }
                            d.consumed += g.nodes().chain(g.edges().map(|e| e.0)).filter_map(|v| g.degree(v).ok()).sum::<usize>() as u64;
                        });
                    }
                }
            }
            if r.pct(30) {
                let h = quiet(&mut d, |_| sp.graph().ok()).flatten();
                if let Some(h) = h { quiet(&mut d, |d| { d.hash ^= (g == h) as u64; }); }
            }
        } else {
            let g = Own(m.clone());
            if m.n() <= 60 && r.pct(30) {
                // one whose queries use the library themselves
                let other = quiet(&mut d, |_| inner(r, m).ok()).flatten();
                if let Some(other) = other {
                    quiet(&mut d, |d| { let g = Nested::new(&g, &other, r.u64()); if r.pct(50) { iterate(&g, &m.nodes, r, d, lim); } if r.pct(50) { matchings(&g, r, d, false); } });
                }
                continue;
            }
            for _ in 0..r.range(1, 4) {
                if r.pct(60) { quiet(&mut d, |d| iterate(&g, &m.nodes, r, d, lim)); } else { quiet(&mut d, |d| matchings(&g, r, d, false)); }
            }
        }
        // refused lists, dropped half built
        if r.pct(40) && m.n() > 1 {
            let mut adj: Vec<Vec<usize>> = m.adj_idx();
            let (i, j) = (r.below(adj.len()), r.below(adj.len() + 2));
            adj[i].push(j);
            let mut es = m.edges.clone();
            if let Some(&e) = es.first() { es.push((e.1, e.0)); }
            quiet(&mut d, |d| {
                if DefaultGraph::try_from(adj).is_err() { d.refused += 1; }
                if DefaultGraph::try_from(es).is_err() { d.refused += 1; }
            });
        }
    }
    d
}

pub fn len(t: bool) -> u64 { if t { 400_000 } else { 40_000 } }
/// Allocation balance (the sanitizers run the same programs in other builds).
pub fn c24(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    // one-time initialisation of this thread is not held against the subject
    let mut w = Rng::new(1, 2, 3);
    for _ in 0..2 { program(&mut w, 6); }
    ctx::forget_panic();
    let max = match c.idx % 100 { _ if c.idx % 2000 == 1996 => *r.pick(&[400, 1000, 2500]), 99 => 120, 98 | 97 => 60, x if x < 50 => 8, _ => 24 };
    let (live, calls) = (mem::mine(), mem::calls());
    let d = program(&mut r, max);
    let left = mem::mine() - live;
    let calls = mem::calls() - calls;
    c.count("allocator_calls_observed", calls);
    c.count("operations", d.ops);
    c.count("refused_operations", d.refused);
    c.count("abandoned_iterators", d.abandoned);
    c.count("matchings_run", d.matchings);
    c.count("panics_caught", d.panics);
    c.count("items_consumed", d.consumed);
    let mut k = Key::new();
    k.add(d.hash).add(d.ops).add(d.consumed);
    c.eval(if d.ops > 0 { Some(k.get()) } else { None });
    let idx = c.idx;
    c.sample(|| format!("program {} (shapes up to {} nodes): {:?}, allocator calls {}, bytes left {}", idx, max, d, calls, left));
    if left != 0 { return Err(Fail::v(format!("{} bytes are still allocated after everything was dropped ({:?})", left, d)).with(|| format!("memory::program, random state of case {}, shapes up to {} nodes", idx, max))); }
    Ok(())
}
