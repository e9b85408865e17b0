//! Programs over the API as plain numbers: chosen outside, by what they execute, and played back under
//! a sanitizer by an interpreter that does next to nothing itself.
use crate::ctx::{self, Ctx, R};
use crate::gen::{self, Build, Op, Opt};
use crate::model::{norm, Model};
use crate::own::Own;
use crate::props::pure::Shared;
use crate::rng::Rng;
use gamma::graph::{DefaultGraph, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst};
use std::convert::TryFrom;
use std::io::Write;

pub type Script = Vec<usize>;
// graphs
const OPS: usize = 0; const ADJ: usize = 1; const EDGES: usize = 2; const OWN: usize = 3; const TRAVERSED: usize = 4; const MORE: usize = 5; const DROP: usize = 6;
// reading
const WALK: usize = 10; const TABLE: usize = 11; const PARTS: usize = 12; const BOTH: usize = 13; const GREEDY: usize = 14; const MAX: usize = 15; const ASK: usize = 16; const EQ: usize = 17; const NTH: usize = 18; const GRAPH: usize = 19;
// pairings alone
const PAIRS: usize = 30;

fn put(s: &mut Script, op: usize, args: &[usize]) { s.push(op); s.push(args.len()); s.extend_from_slice(args); }
fn ops(l: &[Op]) -> Vec<usize> { l.iter().flat_map(|o| match *o { Op::Node(v) => [0, v, 0], Op::Edge(a, b) => [1, a, b] }).collect() }
fn pairs(l: &[(usize, usize)]) -> Vec<usize> { l.iter().flat_map(|e| [e.0, e.1]).collect() }
fn rows(a: &[Vec<usize>]) -> Vec<usize> { let mut v = vec![a.len()]; for r in a { v.push(r.len()); v.extend(r); } v }
fn graph(s: &mut Script, b: &Build, m: &Model) {
    match b {
        Build::Ops(o) => put(s, OPS, &ops(o)),
        Build::Adj(a) => put(s, ADJ, &rows(a)),
        Build::Edges(e) => put(s, EDGES, &pairs(e)),
        Build::Then(first, o) => { graph(s, first, m); put(s, MORE, &ops(o)); }
        Build::Own => { let mut a = vec![]; for i in 0..m.n() { a.push(m.nodes[i]); a.push(m.nbr[i].len()); a.extend(&m.nbr[i]); } let mut v = vec![m.n()]; v.extend(a); v.extend(pairs(&m.edges)); put(s, OWN, &v); }
    }
}
/// A program: one graph, rarely two, and a few uses of it.
pub fn write(r: &mut Rng) -> Script {
    let mut s = vec![];
    let max = match r.below(100) { 0..=49 => 6, 50..=79 => 10, 80..=94 => 18, 95..=98 => 40, _ => 150 };
    let two = r.pct(15);
    // do the graphs still have the numbers they are known by here?
    let mut sure = true;
    let mut models: Vec<Model> = vec![];
    let mut list: Vec<Build> = vec![];
    for k in 0..1 + two as usize {
        if k == 1 && r.pct(40) { let (b, m) = (list[0].clone(), models[0].clone()); graph(&mut s, &b, &m); list.push(b); models.push(m); continue; }
        let shape = if r.pct(6) { gen::wide(r, max) } else { gen::shape(r, max) };
        let mut sp = gen::spec(r, shape, Opt { own: 20, ..Opt::default() });
        if r.pct(8) { // refused, built half
            sure = false;
            match &mut sp.build {
                Build::Adj(a) if a.len() > 1 => { let (i, j) = (r.below(a.len()), r.below(a.len() + 2)); a[i].push(j); }
                Build::Edges(e) if !e.is_empty() => { let x = *r.pick(e); e.push(if r.pct(50) { x } else { (x.1, x.0) }); }
                _ => {}
            }
        }
        graph(&mut s, &sp.build, &sp.model);
        list.push(sp.build);
        models.push(sp.model);
    }
    for _ in 0..r.range(1, 3) {
        let i = r.below(models.len());
        let m = &models[i];
        let any = |r: &mut Rng| if m.n() > 0 && r.pct(94) { *r.pick(&m.nodes) } else { r.u64() as usize };
        let lim = 2 * m.m() + m.n() + 4;
        let some = |r: &mut Rng| if r.pct(65) { lim } else { r.below(8) };
        match r.below(20) {
            0 | 1 => { let a = any(r); let k = some(r); put(&mut s, WALK, &[i, 0, a, k]) }
            2 | 3 => { let a = any(r); let k = some(r); put(&mut s, WALK, &[i, 1, a, k]) }
            4 => { let a = any(r); put(&mut s, TABLE, &[i, a]) }
            5 | 6 => { let k = some(r); put(&mut s, PARTS, &[i, k]) }
            7 => { let (a, b) = (any(r), any(r)); let (k, j) = (some(r), r.below(3)); put(&mut s, BOTH, &[i, a, b, k, j]) }
            8 => put(&mut s, GREEDY, &[i]),
            9..=12 => {
                let mut es = m.edges.clone();
                r.shuffle(&mut es);
                let part = *r.pick(&[0, 20, 60, 100, 100]);
                let mut used = std::collections::BTreeSet::new();
                let mut v = vec![i];
                for (a, b) in es { if a != b && r.pct(part) && !used.contains(&a) && !used.contains(&b) { used.insert(a); used.insert(b); v.extend(if r.pct(50) { [a, b] } else { [b, a] }); } }
                if sure && (m.n() <= 40 || part == 100) { put(&mut s, MAX, &v) }
            }
            13 => { let (a, b) = (any(r), any(r)); put(&mut s, ASK, &[i, a, b]) }
            14 => { let j = r.below(models.len()); put(&mut s, EQ, &[i, j]) }
            15 => { let (d, a, k) = (r.below(3), any(r), r.below(lim)); put(&mut s, NTH, &[i, d, a, k]) }
            16 => { let a = any(r); put(&mut s, GRAPH, &[i, a]) }
            17 => { // grow
                let mut o = vec![];
                for _ in 0..r.range(1, 4) { let (a, b) = (any(r), any(r)); o.extend(if r.pct(40) { [0, r.below(30), 0] } else { [1, a, b] }); }
                put(&mut s, MORE, &o);
            }
            18 => { // pairs, then a path
                let n = r.range(0, 6);
                let mut v = vec![n];
                for _ in 0..n { let a = r.below(8); v.extend([a, (a + 1 + r.below(7)) % 8]); }
                let mut p: Vec<usize> = (0..8).collect();
                r.shuffle(&mut p);
                p.truncate(r.below(8));
                v.extend(p);
                put(&mut s, PAIRS, &v)
            }
            _ => if r.pct(50) { sure = false; put(&mut s, DROP, &[]) } else { let a = any(r); put(&mut s, TRAVERSED, &[i, a]); sure = false },
        }
    }
    s
}

enum Slot { D(DefaultGraph), O(Own) }
macro_rules! with { ($s:expr, $g:ident => $e:expr) => { match $s { Slot::D($g) => $e, Slot::O($g) => $e } } }

fn read(op: usize, a: &[usize], gs: &[Slot]) -> usize {
    if op == PAIRS {
        let mut p = Pairing::new();
        for k in 0..a[0] { p.pair(a[1 + 2 * k], a[2 + 2 * k]); }
        let mut q = Pairing::new();
        for (x, y) in p.edges() { q.pair(y, x); }
        let n = (p == q) as usize + p.order() + p.has_node(3) as usize;
        let m = if p.has_node(0) { p.mate(0) } else { 0 };
        p.augment(a[1 + 2 * a[0]..].to_vec());
        return n + m + p.edges().count();
    }
    if gs.is_empty() { return 0; }
    let at = |i: usize| &gs[i % gs.len()];
    fn walk<G: Graph>(g: &G, d: usize, root: usize, k: usize) -> usize {
        if d == 0 { DepthFirst::new(g, root).map(|t| t.take(k).map(|s| s.tid & 1).sum()).unwrap_or(1) } else { BreadthFirst::new(g, root).map(|t| t.take(k).map(|s| s.tid & 1).sum()).unwrap_or(1) }
    }
    fn nth<G: Graph>(g: &G, d: usize, root: usize, k: usize) -> usize {
        match d {
            0 => DepthFirst::new(g, root).ok().map(|mut t| { let a = t.size_hint().0; t.nth(k).map_or(0, |s| s.sid & 1) + t.count() + a }).unwrap_or(1),
            1 => BreadthFirst::new(g, root).ok().map(|mut t| { let a = t.size_hint().0; t.nth(k).map_or(0, |s| s.sid & 1) + t.count() + a }).unwrap_or(1),
            _ => { let mut c = components(g); let a = c.size_hint().0; a + c.nth(k % 4).map_or(0, |c| c.order()) + c.count() }
        }
    }
    fn both<G: Graph>(g: &G, x: usize, y: usize, k: usize, j: usize) -> usize {
        let (Ok(mut a), Ok(mut b)) = (DepthFirst::new(g, x), BreadthFirst::new(g, y)) else { return 1 };
        let mut c = components(g);
        let mut n = 0;
        for _ in 0..k { let (p, q) = (a.next(), b.next()); if p.is_none() && q.is_none() { break; } n += p.is_some() as usize + q.is_some() as usize; }
        let kept = c.next();
        match j { 0 => { drop(a); n += b.count(); } 1 => { drop(b); n += a.count(); } _ => { drop(c); } }
        n + kept.map_or(0, |k| k.order())
    }
    fn matching<G: Graph>(g: &G, l: &[usize]) -> usize {
        let mut p = Pairing::new();
        for e in l.chunks(2) { p.pair(e[0], e[1]); }
        maximum_matching(g, &mut p);
        p.order()
    }
    fn ask<G: Graph>(g: &G, a: usize, b: usize) -> usize {
        g.is_empty() as usize + g.order() + g.size() + g.nodes().count() + g.edges().map(|e| e.0 & 1).sum::<usize>() + g.has_node(a) as usize + g.degree(a).unwrap_or(0)
            + g.has_edge(a, b).unwrap_or(false) as usize + g.neighbors(a).map_or(0, |i| i.map(|x| x & 1).sum()) + g.neighbors(b).map_or(0, |i| i.take(1).count())
    }
    match op {
        WALK => with!(at(a[0]), g => walk(g, a[1], a[2], a[3])),
        TABLE => with!(at(a[0]), g => DepthFirst::new(g, a[1]).map(|t| { let (n, e) = t.into_table(); n.len() + e.len() }).unwrap_or(1)),
        PARTS => with!(at(a[0]), g => components(g).take(a[1]).map(|c| c.order() + c.size()).sum()),
        BOTH => with!(at(a[0]), g => both(g, a[1], a[2], a[3], a[4])),
        GREEDY => with!(at(a[0]), g => { let p = greedy(g); p.order() + p.edges().map(|e| e.0 & 1).sum::<usize>() }),
        MAX => with!(at(a[0]), g => matching(g, &a[1..])),
        ASK => with!(at(a[0]), g => ask(g, a[1], a[2])),
        EQ => match (at(a[0]), at(a[1])) { (Slot::D(g), Slot::D(h)) => (g == h) as usize, _ => 0 },
        NTH => with!(at(a[0]), g => nth(g, a[1], a[2], a[3])),
        GRAPH => with!(at(a[0]), g => DepthFirst::new(g, a[1]).ok().and_then(|t| DefaultGraph::try_from(t).ok()).map_or(0, |h| h.order() + h.size())),
        _ => 0,
    }
}
fn grow(g: &mut DefaultGraph, a: &[usize]) -> usize { a.chunks(3).map(|o| if o[0] == 0 { g.add_node(o[1]) } else { g.add_edge(o[1], o[2]) }).filter(|r| r.is_err()).count() }
fn change(op: usize, a: &[usize], gs: &mut Vec<Slot>) {
    let g = match op {
        OPS => { let mut g = DefaultGraph::new(); grow(&mut g, a); Some(g) }
        ADJ => { let mut v = Vec::with_capacity(a[0]); let mut p = 1; for _ in 0..a[0] { v.push(a[p + 1..p + 1 + a[p]].to_vec()); p += 1 + a[p]; } DefaultGraph::try_from(v).ok() }
        EDGES => { let v: Vec<(usize, usize)> = a.chunks(2).map(|e| (e[0], e[1])).collect(); DefaultGraph::try_from(v).ok() }
        OWN => {
            let mut m = Model::new();
            let mut p = 1;
            for i in 0..a[0] { m.nodes.push(a[p]); m.idx.insert(a[p], i); m.nbr.push(a[p + 2..p + 2 + a[p + 1]].to_vec()); p += 2 + a[p + 1]; }
            m.edges = a[p..].chunks(2).map(|e| (e[0], e[1])).collect();
            m.eset = m.edges.iter().map(|&e| norm(e)).collect();
            gs.push(Slot::O(Own(m)));
            None
        }
        TRAVERSED => { if gs.is_empty() { return; } let i = a[0] % gs.len(); with!(&gs[i], g => DepthFirst::new(g, a[1]).ok().and_then(|t| DefaultGraph::try_from(t).ok())) }
        MORE => { if let Some(Slot::D(g)) = gs.last_mut() { grow(g, a); } None }
        _ => { if !gs.is_empty() { gs.swap_remove(0); } None }
    };
    if let Some(g) = g { gs.push(Slot::D(g)); }
}
fn steps(s: &[usize], f: &mut dyn FnMut(usize, &[usize])) { let mut p = 0; while p + 1 < s.len() { let n = s[p + 1]; f(s[p], &s[p + 2..p + 2 + n]); p += 2 + n; } }
fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    let d = ctx::slot(1);
    d.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    d.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    if r.is_err() { ctx::forget_panic(); }
    r.ok()
}

#[derive(Default, Clone, Copy)]
pub struct Played { pub operations: u64, pub panics: u64 }
/// Alone.
pub fn play(s: &[usize], t: &mut Played) {
    let mut gs = vec![];
    steps(s, &mut |op, a| {
        t.operations += 1;
        let ok = if op < 10 { guarded(|| change(op, a, &mut gs)).is_some() } else { guarded(|| std::hint::black_box(read(op, a, &gs))).is_some() };
        if !ok { t.panics += 1; }
    });
}
/// With the graphs made first, and then all uses of them by two threads at once.
pub fn duet(s: &[usize], t: &mut Played) {
    let mut gs = vec![];
    let mut uses: Vec<(usize, Vec<usize>)> = vec![];
    steps(s, &mut |op, a| { if op < 10 { guarded(|| change(op, a, &mut gs)); } else { uses.push((op, a.to_vec())); } });
    t.operations += 2 * uses.len() as u64;
    let sh = Shared(&gs[..]);
    std::thread::scope(|sc| {
        for k in 0..2 {
            let (sh, uses) = (&sh, &uses);
            sc.spawn(move || for i in 0..uses.len() { let (op, a) = &uses[if k == 0 { i } else { uses.len() - 1 - i }]; guarded(|| std::hint::black_box(read(*op, a, sh.all()))); });
        }
    });
}

/// Picks from many programs few cheap ones that, together, execute all the code regions (each about as
/// often) any of the many does. Writes cost, regions, program.
pub fn pick(c: &mut Ctx) -> R {
    let n = if c.thorough() { 100_000 } else { 15_000 };
    let mut r = c.rng.clone();
    let mut all: Vec<(u64, Vec<u32>, Script)> = vec![];
    let mut t = Played::default();
    let mut before = crate::cov::counters();
    let mut idle = 0; // what counting itself costs
    for i in 0..=n {
        let s = if i == 0 { vec![] } else { write(&mut r) };
        before.clear();
        before.extend(crate::cov::counters());
        play(&s, &mut t);
        let after = crate::cov::counters();
        let mut cost = 0;
        let mut f = vec![];
        for (i, (a, b)) in before.iter().zip(&after).enumerate() {
            let d = b.wrapping_sub(*a);
            // the watching thread counts as well
            if d > 0 && d < 1 << 40 { cost += d; f.push((i as u32) << 3 | (64 - d.leading_zeros()).min(7)); }
        }
        if i == 0 { idle = cost; continue; }
        all.push((cost.saturating_sub(idle), f, s));
    }
    all.sort();
    let mut seen = std::collections::BTreeSet::new();
    let mut out = String::new();
    let mut kept = 0;
    for (k, (cost, f, s)) in all.iter().enumerate() {
        let new = f.iter().filter(|x| seen.insert(**x)).count();
        if new == 0 && k % 50 != 0 { continue; }
        kept += 1;
        let list = |v: &mut dyn Iterator<Item = String>| v.collect::<Vec<_>>().join(",");
        out.push_str(&format!("{} {} {}\n", cost, list(&mut f.iter().map(|x| x.to_string())), list(&mut s.iter().map(|x| x.to_string()))));
    }
    c.count("programs_considered", n);
    c.count("programs_kept", kept);
    c.count("regions_seen", seen.len() as u64);
    if let Ok(d) = std::env::var("GMON_DIR") { std::fs::File::create(format!("{}/programs{}", d, c.idx)).and_then(|mut f| f.write_all(out.as_bytes())).expect("programs"); }
    c.eval(Some(c.idx));
    Ok(())
}
