//! Workload generation: shapes of graphs, naming of nodes, order of insertion, construction route.
use crate::ctx::{subj, Fail, R};
use crate::model::Model;
use crate::own::{Lazy, Own};
use crate::rng::{Key, Rng};
use gamma::graph::DefaultGraph;
use std::collections::BTreeSet;
use std::convert::TryFrom;

pub struct Shape { pub n: usize, pub edges: Vec<(usize, usize)>, pub fam: &'static str }

struct B { n: usize, s: BTreeSet<(usize, usize)> }
impl B {
    fn new(n: usize) -> B { B { n, s: BTreeSet::new() } }
    fn add(&mut self, a: usize, b: usize) -> bool {
        self.n = self.n.max(a.max(b) + 1);
        self.s.insert((a.min(b), a.max(b)))
    }
    fn node(&mut self) -> usize { self.n += 1; self.n - 1 }
    fn path(&mut self, from: usize, len: usize) -> usize {
        let mut v = from;
        for _ in 0..len { let w = self.node(); self.add(v, w); v = w; }
        v
    }
    /// Cycle through `v` of `len` nodes; gives its nodes.
    fn cycle(&mut self, v: usize, len: usize) -> Vec<usize> {
        let mut c = vec![v];
        for _ in 1..len { let w = self.node(); c.push(w); }
        for i in 0..len { self.add(c[i], c[(i + 1) % len]); }
        c
    }
    fn done(self, fam: &'static str) -> Shape { Shape { n: self.n, edges: self.s.into_iter().collect(), fam } }
}

fn odd(r: &mut Rng, max: usize) -> usize { 3 + 2 * r.below((max.max(3) - 1) / 2) }

/// Constants that occur in the library's source beyond the small ones, for sizes and names near them.
/// None in the library as it was.
pub fn constants() -> &'static [usize] {
    static C: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    C.get_or_init(|| std::env::var("GMON_DICT").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect())
}
/// A size near one of the constants, the larger the less often.
pub fn tuned(r: &mut Rng, most: usize) -> Option<usize> {
    if constants().is_empty() { return None; }
    let c = *r.pick(constants());
    if c > most || !r.pct(30) || r.below(c * c + 4000) >= 4000 { return None; }
    let k = r.below(8);
    Some([c, c + 1, c + 2, c.saturating_sub(1), c + 1 + r.below(c / 2 + 4), 2 * c, 2 * c + 1, 2 * c + 2 + r.below(c / 2 + 4)][k].max(1))
}
/// A shape with so many of something.
fn tuned_shape(r: &mut Rng, c: usize) -> Shape {
    let s = match r.below(12) {
        // hubs
        0 | 1 => { let mut b = B::new(1 + c); for i in 1..=c { b.add(0, i); } for i in 1..=c { if r.pct(40) { let w = b.node(); b.add(i, w); } } let k = r.below(c / 2 + 4); for _ in 0..k { let (x, y) = (r.below(b.n), r.below(b.n)); if x != y { b.add(x, y); } } b.done("tuned-hub") }
        2 => { let mut b = B::new(c + 2); for i in 2..c + 2 { if r.pct(80) { b.add(0, i); } if r.pct(80) { b.add(1, i); } } b.done("tuned-two-hubs") }
        // deep
        3 => { let mut b = B::new(1); b.path(0, c); for _ in 0..r.below(4) { let (x, y) = (r.below(b.n), r.below(b.n)); if x != y { b.add(x, y); } } b.done("tuned-path") }
        4 => { let mut b = B::new(1); b.cycle(0, c.max(3)); for _ in 0..r.below(6) { let v = r.below(b.n); let k = r.range(1, 4); b.path(v, k); } b.done("tuned-cycle") }
        5 => { let k = r.range(1, 3 + c / 3); let mut b = B::new(1); let v = b.path(0, k); let d = odd(r, c.max(5)); b.cycle(v, d); let w = r.below(b.n); b.path(w, c); b.done("tuned-stem") }
        // so many edges, nodes, parts
        6 => { let n = 2 + c / r.range(1, 4); gnm(r, n, c) }
        7 => { let m = c * r.range(1, 2); gnm(r, c, m) }
        8 => { let mut b = B::new(0); for _ in 0..c.min(1200) { let s = match r.below(5) { 0 | 1 => gnp(r, 1, 0), 2 => gnp(r, 2, 100), 3 => tree(r, 4), _ => gnp(r, 3, 80) }; append(&mut b, &s); } b.done("tuned-parts") }
        9 => tree(r, c),
        10 => { let n = c.min(50); let mut b = B::new(n); for i in 0..n { for j in 0..i { if r.pct(90) { b.add(i, j); } } } b.done("tuned-dense") }
        _ => match r.below(4) { 0 => cactus(r, c), 1 => ears(r, c), 2 => planted(r, c), _ => nest(r, c) },
    };
    if !r.pct(40) { return s; }
    // in company, joined to it or not
    let mut b = B::new(0);
    append(&mut b, &s);
    let k = r.range(1, 12);
    let mut o = any_shape(r, k);
    if o.n > 60 { o = tree(r, 5); }
    append(&mut b, &o);
    if r.pct(60) && s.n > 0 && o.n > 0 { let (x, y) = (r.below(s.n), s.n + r.below(o.n)); b.add(x, y); }
    b.done(s.fam)
}

/// A random shape of about at most `max` nodes and at most 2500 edges (the subject's depth-first
/// traversal takes time quadratic in the edges).
pub fn shape(r: &mut Rng, max: usize) -> Shape {
    let mut s = match tuned(r, if max > 100 { 1500 } else { 400 }) { Some(c) => tuned_shape(r, c), None => any_shape(r, max) };
    if s.edges.len() > 2500 { r.shuffle(&mut s.edges); s.edges.truncate(2500); s.edges.sort(); }
    s
}
fn any_shape(r: &mut Rng, max: usize) -> Shape {
    let max = max.max(1);
    let n = r.range(1, max);
    match r.below(23) {
        0 | 1 => { let p = r.range(0, 100); gnp(r, n, p) }
        2 => { let d = r.range(1, 4) * 100; let p = (d / n.max(1)).min(100); gnp(r, n, p) }
        3 => tree(r, n),
        4 => match r.below(5) {
            0 => { let mut b = B::new(1); b.path(0, n - 1); b.done("path") }
            1 => if n >= 3 { let mut b = B::new(1); b.cycle(0, n); b.done("cycle") } else { tree(r, n) },
            2 => { let mut b = B::new(n); for i in 1..n { b.add(0, i); } b.done("star") }
            3 => if n >= 4 { let mut b = B::new(1); let c = b.cycle(0, n - 1); let h = b.node(); for v in c { b.add(h, v); } b.done("wheel") } else { tree(r, n) },
            _ => { let mut b = B::new(n); for i in 0..n / 2 { b.add(2 * i, 2 * i + 1); } b.done("pairs") }
        },
        5 => { let n = n.min(24 + max / 8); let mut b = B::new(n); for i in 0..n { for j in 0..i { b.add(i, j); } }
               let k = r.below(4); let e: Vec<_> = b.s.iter().cloned().collect();
               if !e.is_empty() { for _ in 0..k { b.s.remove(r.pick(&e)); } } b.done("near-complete") }
        6 => { let parts = r.range(2, 4); let mut b = B::new(n); for i in 0..n { for j in 0..i { if i % parts != j % parts && r.pct(80) { b.add(i, j); } } } b.done("multipartite") }
        7 => { let w = r.range(1, 6); let mut b = B::new(n); for i in 0..n { if i % w != w - 1 && i + 1 < n { b.add(i, i + 1); } if i + w < n { b.add(i, i + w); } }
               if r.pct(30) && n > 2 { b.add(0, n - 1); } b.done("grid") }
        8 | 9 => cactus(r, n),
        10 | 11 => ears(r, n),
        12 => union(r, n),
        13 => rings(r, n),
        14 => { let mut b = B::new(n); let k = r.range(1, 3); for s in 0..k { let st = s + 1; for i in 0..n { if n > 2 * st { b.add(i, (i + st) % n); } } }
                for _ in 0..r.below(3) { if n > 1 { let (x, y) = (r.below(n), r.below(n)); if x != y { b.add(x, y); } } } b.done("circulant") }
        15 => planted(r, n),
        16 => barbell(r, n),
        17 => named(r),
        18 => stems(r, n),
        19 => nest(r, n),
        20 => long_blossoms(r, n),
        21 => hubs(r, n),
        _ => flowers(r, n),
    }
}

pub fn gnp(r: &mut Rng, n: usize, p: usize) -> Shape {
    let mut b = B::new(n);
    for i in 0..n { for j in 0..i { if r.pct(p) { b.add(i, j); } } }
    b.done("gnp")
}
pub fn gnm(r: &mut Rng, n: usize, m: usize) -> Shape {
    let mut b = B::new(n);
    let mut k = 0;
    while b.s.len() < m && k < 20 * m { let (x, y) = (r.below(n), r.below(n)); if x != y { b.add(x, y); } k += 1; }
    b.done("gnm")
}
pub fn tree(r: &mut Rng, n: usize) -> Shape {
    let mut b = B::new(n);
    let style = r.below(4);
    for i in 1..n {
        let p = match style { 0 => r.below(i), 1 => i - 1 - r.below(i.min(3)), 2 => (i - 1) / 2, _ => if i % 3 == 0 { i - 1 } else { i / 2 } };
        b.add(i, p.min(i - 1));
    }
    b.done("tree")
}
fn cactus(r: &mut Rng, n: usize) -> Shape {
    let mut b = B::new(1);
    while b.n < n {
        let v = r.below(b.n);
        if r.pct(35) { let l = r.range(1, 3); b.path(v, l); } else { let l = if r.pct(80) { odd(r, 7) } else { r.range(3, 8) }; b.cycle(v, l); }
    }
    b.done("cactus")
}
/// Odd ear decompositions: factor-critical graphs, that is, nested blossoms; then optional tails.
fn ears(r: &mut Rng, n: usize) -> Shape {
    let mut b = B::new(1);
    let l = odd(r, 7);
    b.cycle(0, l);
    while b.n < n {
        let (x, y) = (r.below(b.n), r.below(b.n));
        let inner = 2 * r.range(0, 2); // inner nodes of an odd ear
        if x == y {
            let k = inner.max(2);
            b.cycle(x, k + 1);
        } else if inner == 0 {
            b.add(x, y);
            if r.pct(50) { continue; }
            let w = b.node(); let z = b.node();
            b.add(x, w); b.add(w, z); b.add(z, y);
        } else {
            let mut v = x;
            for _ in 0..inner { let w = b.node(); b.add(v, w); v = w; }
            b.add(v, y);
        }
    }
    for _ in 0..r.below(4) { let v = r.below(b.n); let l = r.range(1, 3); b.path(v, l); }
    b.done("ears")
}
fn append(b: &mut B, s: &Shape) {
    let o = b.n;
    b.n += s.n;
    for &(x, y) in &s.edges { b.add(o + x, o + y); }
}
fn union(r: &mut Rng, n: usize) -> Shape {
    let mut b = B::new(0);
    while b.n < n {
        if r.pct(25) { b.node(); continue; }
        let k = r.range(1, (n - b.n).min(12));
        let s = match r.below(5) { 0 => gnp(r, k, 50), 1 => tree(r, k), 2 => cactus(r, k), 3 => ears(r, k), _ => planted(r, k) };
        append(&mut b, &s);
    }
    b.done("union")
}
fn rings(r: &mut Rng, n: usize) -> Shape {
    let mut b = B::new(1);
    let l = r.range(5, 7);
    b.cycle(0, l);
    while b.n < n {
        let e: Vec<_> = b.s.iter().cloned().collect();
        let &(x, y) = r.pick(&e);
        let k = r.range(2, 4);
        let mut v = x;
        for _ in 0..k { let w = b.node(); b.add(v, w); v = w; }
        b.add(v, y);
        if r.pct(20) { let v = r.below(b.n); b.path(v, 1); }
    }
    b.done("rings")
}
fn planted(r: &mut Rng, n: usize) -> Shape {
    let n = n + n % 2;
    let mut b = B::new(n);
    let mut p: Vec<usize> = (0..n).collect();
    r.shuffle(&mut p);
    for i in 0..n / 2 { b.add(p[2 * i], p[2 * i + 1]); }
    let k = r.below(2 * n + 1);
    for _ in 0..k { let (x, y) = (r.below(n), r.below(n)); if x != y { b.add(x, y); } }
    b.done("planted-perfect")
}
fn barbell(r: &mut Rng, n: usize) -> Shape {
    let mut b = B::new(0);
    let h = (n / 2).max(1);
    let s = if r.pct(50) { ears(r, h) } else { cactus(r, h) };
    append(&mut b, &s);
    let (p0, k) = (r.below(b.n), r.range(0, 5));
    let e = b.path(p0, k);
    let o = b.n;
    let s = if r.pct(50) { ears(r, h) } else { cactus(r, h) };
    append(&mut b, &s);
    let q = o + r.below(b.n - o);
    b.add(e, q);
    b.done("barbell")
}
fn named(r: &mut Rng) -> Shape {
    match r.below(5) {
        0 => { let mut b = B::new(10); for i in 0..5 { b.add(i, (i + 1) % 5); b.add(i, i + 5); b.add(5 + i, 5 + (i + 2) % 5); } b.done("petersen") }
        1 => { let d = r.range(1, 4); let mut b = B::new(1 << d); for i in 0..1usize << d { for k in 0..d { b.add(i, i ^ (1 << k)); } } b.done("hypercube") }
        2 => { let k = r.range(3, 8); let mut b = B::new(2 * k); for i in 0..k { b.add(i, (i + 1) % k); b.add(k + i, k + (i + 1) % k); b.add(i, k + i); } b.done("prism") }
        3 => { let k = r.range(1, 6); let mut b = B::new(1); for _ in 0..k { b.cycle(0, 3); } b.done("friendship") }
        _ => { let (x, y) = (r.range(1, 7), r.range(1, 7)); let mut b = B::new(x + y); for i in 0..x { for j in 0..y { b.add(i, x + j); } } b.done("bipartite") }
    }
}
/// Odd cycles hanging on stems of every length, with tails leaving anywhere.
fn stems(r: &mut Rng, n: usize) -> Shape {
    let mut b = B::new(1);
    let mut at = 0;
    while b.n < n {
        let l = r.range(1, 4);
        at = b.path(at, l);
        let l = odd(r, 9);
        let c = b.cycle(at, l);
        at = *r.pick(&c);
        if r.pct(40) { let v = r.below(b.n); let l = r.range(1, 3); b.path(v, l); }
        if r.pct(30) { at = r.below(b.n); }
    }
    b.done("stems")
}
/// Blossoms in blossoms: odd ears put one around the other, each with its ends on the last one or two,
/// so that contractions nest; tails and rungs now and then.
fn nest(r: &mut Rng, n: usize) -> Shape {
    let mut b = B::new(1);
    let mut last = b.cycle(0, 3);
    let mut before = last.clone();
    while b.n < n {
        let pool = if r.pct(70) { &last } else { &before };
        let (x, y) = (*r.pick(pool), *r.pick(&last));
        let inner = if x == y { 2 * r.range(1, 2) } else { 2 * r.range(1, 3) };
        let mut ring = vec![x];
        let mut v = x;
        for _ in 0..inner { let w = b.node(); b.add(v, w); ring.push(w); v = w; }
        b.add(v, y);
        if x != y { ring.push(y); }
        before = std::mem::replace(&mut last, ring);
        if r.pct(12) { let v = *r.pick(&before); let l = r.range(1, 2); b.path(v, l); }
    }
    if r.pct(60) { let v = *r.pick(&last); let l = r.range(1, 4); b.path(v, l); }
    b.done("nest")
}
/// A few long odd cycles sharing nodes, chords or stems.
fn long_blossoms(r: &mut Rng, n: usize) -> Shape {
    let mut b = B::new(1);
    let l = r.range(0, 4);
    let mut at = b.path(0, l);
    for _ in 0..r.range(1, 3) {
        let len = odd(r, n.max(5));
        let c = b.cycle(at, len);
        for _ in 0..r.below(3) { let (x, y) = (*r.pick(&c), *r.pick(&c)); if x != y { b.add(x, y); } }
        for _ in 0..r.below(3) { let v = *r.pick(&c); let l = r.range(1, 5); b.path(v, l); }
        at = *r.pick(&c);
        if r.pct(50) { let l = r.range(1, 6); at = b.path(at, l); }
        if b.n >= n { break; }
    }
    b.done("long-blossoms")
}
/// One to three nodes of high degree, whose legs are mostly dead ends of one to three edges, some of
/// them joined among each other or to several of the hubs.
fn hubs(r: &mut Rng, n: usize) -> Shape {
    let h = r.range(1, 3);
    let mut b = B::new(h);
    // legs of exactly two nodes, and nothing else, leave the hubs without a partner
    let plain = r.pct(50);
    let two = if plain { 100 } else { r.range(20, 100) };
    for i in 0..n {
        let leg = b.node();
        b.add(i % h, leg);
        for k in 0..h { if r.pct(8) { b.add(k, leg); } }
        if r.pct(two) { let l = if !plain && r.pct(12) { 2 } else { 1 }; b.path(leg, l); }
        if r.pct(4) { let x = r.range(h, b.n - 1); if x != leg { b.add(leg, x); } }
    }
    if h > 1 { match r.below(3) { 0 => { b.add(0, 1); } 1 => { let v = b.path(0, 2); b.add(v, 1); } _ => {} } }
    b.done("hubs")
}
/// How wide: mostly between `lo` and `hi`, now and then much wider, or near a constant of the library.
pub fn width(r: &mut Rng, lo: usize, hi: usize) -> usize {
    if !constants().is_empty() && r.pct(50) { let c = *r.pick(constants()); if c <= 1000 { return c + 2 + r.below(c / 4 + 4); } }
    if r.pct(8) { r.range(hi, 1000) } else { r.range(lo, hi) }
}
/// Few nodes with up to `n` neighbors each.
pub fn wide(r: &mut Rng, n: usize) -> Shape {
    match r.below(6) {
        0 | 1 | 2 => hubs(r, n),
        3 => { let x = r.range(1, 5); let mut b = B::new(x + n); for i in 0..x { for j in 0..n { if r.pct(90) { b.add(i, x + j); } } } b.done("lopsided-bipartite") }
        4 => { let mut b = B::new(1); for _ in 0..n / 2 { let l = if r.pct(80) { 3 } else { odd(r, 7) }; b.cycle(0, l); } let l = r.range(0, 3); b.path(0, l); b.done("windmill") }
        _ => { let mut b = B::new(1); let c = b.cycle(0, n.max(3)); let h = b.node(); for v in c { if r.pct(95) { b.add(h, v); } } let l = r.range(0, 3); b.path(h, l); b.done("wide-wheel") }
    }
}
/// A random base graph in which every node is blown up to an odd cycle or clique.
fn flowers(r: &mut Rng, n: usize) -> Shape {
    let k = (n / 4).max(1);
    let base = if r.pct(50) { gnp(r, k, 60) } else { ears(r, k) };
    let mut b = B::new(0);
    let mut parts: Vec<Vec<usize>> = vec![];
    for _ in 0..base.n {
        let v = b.node();
        if r.pct(50) { parts.push(vec![v]); } else {
            let l = odd(r, 5);
            let c = b.cycle(v, l);
            if r.pct(30) { for i in 0..c.len() { for j in 0..i { b.add(c[i], c[j]); } } }
            parts.push(c);
        }
    }
    for &(x, y) in &base.edges {
        for _ in 0..r.range(1, 2) { let (p, q) = (*r.pick(&parts[x]), *r.pick(&parts[y])); b.add(p, q); }
    }
    b.done("flowers")
}

/// Number of labelled simple graphs on at most `n` nodes, in order of node count.
pub fn small_count(n: usize) -> u64 { (0..=n).map(|k| 1u64 << (k * k.saturating_sub(1) / 2)).sum() }
pub fn small(mut i: u64) -> Shape {
    let mut n = 0;
    loop {
        let c = 1u64 << (n * (n as u64).saturating_sub(1) / 2);
        if i < c { break; }
        i -= c;
        n += 1;
    }
    let mut e = vec![];
    let mut k = 0;
    for a in 0..n as usize { for b in 0..a { if i >> k & 1 == 1 { e.push((b, a)); } k += 1; } }
    Shape { n: n as usize, edges: e, fam: "all-small" }
}

/// Large, deep or dense shapes; `k` picks one, `scale` in percent.
pub const BIG: usize = 14;
pub fn big(r: &mut Rng, k: usize, scale: usize) -> Shape {
    let s = |x: usize| (x * scale / 100).max(4);
    match k % BIG {
        0 => { let mut b = B::new(1); b.path(0, s(5000)); let mut x = b.done("path"); x.fam = "big-path"; x }
        1 => { let mut b = B::new(s(3000)); for i in 1..b.n { b.add(0, i); } b.done("big-star") }
        2 => { let n = s(110); let mut b = B::new(n); for i in 0..n { for j in 0..i { b.add(i, j); } } b.done("big-complete") }
        3 => { let w = s(45); let mut b = B::new(w * w); for i in 0..w * w { if i % w != w - 1 { b.add(i, i + 1); } if i + w < w * w { b.add(i, i + w); } } b.done("big-grid") }
        4 => { let (n, m) = (s(2500), s(4000)); let mut x = gnm(r, n, m); x.fam = "big-gnm"; x }
        5 => { let n = s(4000); let mut b = B::new(n); for i in 1..n { b.add(i, (i - 1) / 2); } b.done("big-tree") }
        6 => { let n = s(3001) | 1; let mut b = B::new(1); b.cycle(0, n); b.done("big-cycle") }
        7 => { let mut b = B::new(0); for _ in 0..s(700) { let s = match r.below(4) { 0 => gnp(r, 1, 0), 1 => gnp(r, 4, 70), 2 => tree(r, 5), _ => cactus(r, 5) }; append(&mut b, &s); } b.done("big-union") }
        8 => Shape { n: s(4000), edges: vec![], fam: "big-isolated" },
        9 => { let mut b = B::new(1); for i in 0..s(1500) { b.cycle(2 * i, 3); } b.done("big-triangles") }
        10 => { let n = s(1200); let mut b = B::new(n); for i in 1..n { b.add(i, i - 1); if i >= 2 { b.add(i, i - 2); } } b.done("big-strip") }
        11 => { let (x, y) = (s(60), s(80)); let mut b = B::new(x + y); for i in 0..x { for j in 0..y { b.add(i, x + j); } } b.done("big-bipartite") }
        12 => { let n = s(1500); let mut b = B::new(1); let mut v = 0; for i in 0..n { let w = b.node(); b.add(v, w); for _ in 0..i % 4 { let l = b.node(); b.add(v, l); } v = w; } b.done("big-caterpillar") }
        _ => { let (n, m) = (s(200), s(3000)); let mut x = gnm(r, n, m); x.fam = "big-dense"; x }
    }
}

/// Shapes with more than 2^16 nodes, edges, neighbors or parts, sparse enough for quadratic scans of
/// single rows.
pub const HUGE: usize = 6;
pub fn huge(r: &mut Rng, k: usize) -> Shape {
    let n = 65_540 + r.below(3000);
    match k % HUGE {
        0 => Shape { n, edges: (1..n).map(|i| (i - 1, i)).collect(), fam: "huge-path" },
        1 => Shape { n: 2 * n, edges: (0..n).map(|i| (2 * i, 2 * i + 1)).collect(), fam: "huge-pairs" },
        2 => Shape { n, edges: (1..n).map(|i| (0, i)).collect(), fam: "huge-star" },
        3 => Shape { n, edges: (1..n / 500).map(|i| (500 * (i - 1), 500 * i)).collect(), fam: "huge-isolated" },
        4 => Shape { n, edges: (1..n).map(|i| ((i - 1) / 2, i)).collect(), fam: "huge-tree" },
        _ => { let k = n / 3; Shape { n: 3 * k, edges: (0..k).flat_map(|i| [(3 * i, 3 * i + 1), (3 * i + 1, 3 * i + 2), (3 * i, 3 * i + 2)]).collect(), fam: "huge-triangles" } }
    }
}

/// How far ids below `n` can be shifted.
fn top_shift(n: usize) -> usize { (n.max(2) - 1).leading_zeros() as usize - 1 }
/// Node names: injective map from 0..n to ids.
pub fn labels(r: &mut Rng, n: usize) -> (Vec<usize>, &'static str) {
    let mut v: Vec<usize>;
    let name;
    if !constants().is_empty() && r.pct(15) {
        // near a constant of the library, or its multiples, or what it cannot tell apart
        let c = *r.pick(constants());
        let near = |r: &mut Rng, o: usize| c.wrapping_add(r.below(2 * n + 4)).wrapping_sub(o);
        let how = r.below(5);
        let o = match how { 1 => n + 2, _ => 0 };
        let mut s = BTreeSet::new();
        let mut tries = 0;
        while s.len() < n {
            tries += 1;
            s.insert(match how {
                _ if tries > 8 * n + 100 => r.u64() as usize,
                0 => c.wrapping_add(s.len()),
                1 => near(r, o),
                2 => r.below(n + 4).wrapping_mul(c).wrapping_add(r.below(3)),
                3 => if r.pct(50) { near(r, 2) } else { r.below(2 * n + 4) },
                _ => r.below(8).wrapping_add(c.wrapping_mul(r.below(n + 4))),
            });
        }
        v = s.into_iter().collect();
        if r.pct(75) { r.shuffle(&mut v); }
        return (v, "near-a-constant");
    }
    match r.below(15) {
        0 | 1 => { v = (0..n).collect(); return (v, "0..n"); }
        13 => { // 0..n but for little
            v = (0..n).collect();
            for _ in 0..r.range(1, 2) {
                if n < 2 { break; }
                // often away from both ends
                let (lo, hi) = if n > 4 && r.pct(60) { (1 + r.below(n / 4), n - 1 - r.below(n / 4)) } else { (0, n) };
                let (a, b) = (r.range(lo, hi - 1), r.range(lo, hi - 1));
                match r.below(5) {
                    0 | 1 => v.swap(a, b),
                    2 => { let (a, b) = (a.min(b), a.max(b)); v[a..=b].rotate_left(1); }
                    3 => { let mut x = if r.pct(50) { n + r.below(20) } else { r.u64() as usize }; while v.contains(&x) { x = x.wrapping_add(1); } v[a] = x; }
                    _ => { let (a, b) = (a.min(b), a.max(b)); v[a..=b].reverse(); }
                }
            }
            return (v, "nearly 0..n");
        }
        2 => { v = (0..n).collect(); name = "permuted"; }
        3 => { let o = r.range(1, 2000); v = (o..o + n).collect(); name = "offset"; }
        4 => { let mut s = BTreeSet::new(); while s.len() < n { s.insert(r.below(4 * n + 20)); } v = s.into_iter().collect(); name = "sparse"; }
        5 => { let mut s = BTreeSet::new(); while s.len() < n { s.insert(r.u64() as usize); } v = s.into_iter().collect(); name = "random-64-bit"; }
        6 => { v = (0..n).map(|i| usize::MAX - i).collect(); name = "top-of-range"; }
        7 => { // straddling a power of two
               let k = *r.pick(&[7, 8, 15, 16, 24, 31, 32, 33, 48, 52, 53, 62, 63]);
               let b = 1usize << k; let o = r.range(0, n);
               v = (0..n).map(|i| b.wrapping_add(i).wrapping_sub(o)).collect(); name = "around-a-power-of-two"; }
        8 => { // the low bits are all the same
               let k = (*r.pick(&[6usize, 8, 12, 16, 20, 32, 40, 50])).min(top_shift(n)); let c = r.u64() as usize & ((1 << k) - 1);
               v = (0..n).map(|i| (i << k) | c).collect(); name = "equal-low-bits"; }
        9 => { // the halves are the same, or each other's complement or mirror: they cancel in a fold
               let k = r.below(3); let o = r.below(1 << 20);
               v = (0..n).map(|i| { let x = i + o; match k { 0 => x << 32 | x, 1 => x << 32 | (x ^ 0xffff_ffff), _ => if i % 2 == 0 { (x + 1) << 32 | x } else { (x - 1) << 32 | x } } }).collect();
               let d: BTreeSet<usize> = v.iter().cloned().collect(); if d.len() < n { v = (0..n).map(|i| i << 32 | i).collect(); }
               name = "equal-halves"; }
        10 => { // one or two bits apart
                let b = if r.pct(30) { 0 } else { r.u64() as usize };
                let mut s = BTreeSet::new(); s.insert(b);
                for k in 0..64 { if s.len() < n { s.insert(b ^ (1 << ((k * 29 + 7) % 64))); } }
                while s.len() < n { let mut x = b; for _ in 0..if n > 5000 { 6 } else { 3 } { x ^= 1 << r.below(64); } s.insert(x); }
                v = s.into_iter().take(n).collect(); name = "one-bit-apart"; }
        11 => { // close together, far from zero
                let b = r.u64() as usize; let mut s = BTreeSet::new();
                while s.len() < n { s.insert(b.wrapping_add(r.below(2 * n + 4))); }
                v = s.into_iter().collect(); name = "cluster"; }
        12 => { let k = r.range(1, 40); v = (0..n).map(|i| i << k.min(top_shift(n))).collect(); name = "multiples"; }
        _ => { let mut s = BTreeSet::new();
               for x in [0, usize::MAX, usize::MAX - 1, 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32, u32::MAX as usize, u16::MAX as usize, 255, 256] { if s.len() < n { s.insert(x); } }
               while s.len() < n { s.insert(r.u64() as usize >> r.below(60)); }
               v = s.into_iter().collect(); name = "extremes"; }
    }
    if r.pct(85) { r.shuffle(&mut v); }
    (v, name)
}

/// Puts a list in some order: sorted, nearly so, in part, or not at all.
pub fn arrange<T: Ord>(r: &mut Rng, v: &mut [T]) {
    if v.len() < 2 { return; }
    match r.below(12) {
        0 | 1 => v.sort(),
        2 => v.reverse(),
        3 => { v.sort(); v.reverse(); }
        4 => { v.sort(); let k = r.below(v.len()); v.rotate_left(k); }
        5 | 6 => { v.sort(); for _ in 0..r.range(1, 2) { let (a, b) = (r.below(v.len()), r.below(v.len())); v.swap(a, b); } }
        7 => { v.sort(); let k = r.below(v.len()); if r.pct(50) { r.shuffle(&mut v[k..]) } else { r.shuffle(&mut v[..=k]) } }
        8 => { v.sort(); let k = r.below(v.len() - 1); v.swap(k, k + 1); }
        _ => r.shuffle(v),
    }
}
fn arrange_rows<T: Ord>(r: &mut Rng, rows: &mut [Vec<T>]) { for row in rows.iter_mut() { arrange(r, row); } }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Node(usize), Edge(usize, usize) }

#[derive(Debug, Clone)]
pub enum Build {
    Ops(Vec<Op>), Adj(Vec<Vec<usize>>), Edges(Vec<(usize, usize)>), Own,
    /// From a list, then one by one.
    Then(Box<Build>, Vec<Op>),
}

pub struct Spec { pub fam: &'static str, pub names: &'static str, pub model: Model, pub build: Build }

#[derive(Clone, Copy)]
pub struct Opt { pub loops: usize, pub own: usize, pub refused: usize }
impl Default for Opt { fn default() -> Self { Opt { loops: 15, own: 25, refused: 10 } } }

/// Turns a shape into a graph to build: names, orders, directions, route.
pub fn spec(r: &mut Rng, s: Shape, o: Opt) -> Spec {
    let mut edges = s.edges;
    if r.pct(o.loops) && s.n > 0 {
        let k = r.range(1, 1 + s.n.min(4));
        let mut l = BTreeSet::new();
        for _ in 0..k { l.insert(r.below(s.n)); }
        edges.extend(l.into_iter().map(|v| (v, v)));
    }
    if r.pct(80) { r.shuffle(&mut edges); }
    if r.pct(80) { for e in edges.iter_mut() { if r.pct(50) { *e = (e.1, e.0); } } }
    let n = s.n;
    let route = r.below(100);
    if route < o.own {
        let (l, names) = labels(r, n);
        let mut order: Vec<usize> = (0..n).collect();
        if r.pct(60) { r.shuffle(&mut order); }
        let mut m = Model::new();
        for &i in &order { m.add_node(l[i]).unwrap(); }
        for &(a, b) in &edges { m.add_edge(l[a], l[b]).unwrap(); }
        arrange_rows(r, &mut m.nbr);
        r.shuffle(&mut m.edges);
        return Spec { fam: s.fam, names, model: m, build: Build::Own };
    }
    if route < o.own + 25 {
        let mut l: Vec<usize> = (0..n).collect();
        if r.pct(50) { r.shuffle(&mut l); }
        let mut adj = vec![vec![]; n];
        for &(a, b) in &edges { adj[l[a]].push(l[b]); if a != b { adj[l[b]].push(l[a]); } }
        arrange_rows(r, &mut adj);
        let model = Model::from_adj(&adj);
        return Spec { fam: s.fam, names: "rows", model, build: Build::Adj(adj) };
    }
    let (l, names) = labels(r, n);
    if route < o.own + 45 {
        let mut deg = vec![0; n];
        for &(a, b) in &edges { deg[a] += 1; deg[b] += 1; }
        if deg.iter().all(|&d| d > 0) {
            let es: Vec<_> = edges.iter().map(|&(a, b)| (l[a], l[b])).collect();
            return Spec { fam: s.fam, names, model: Model::from_edges(&es), build: Build::Edges(es) };
        }
    }
    let mut l = l;
    let mut ops = vec![];
    let mut m = Model::new();
    let mut order: Vec<usize> = (0..n).collect();
    if r.pct(50) { r.shuffle(&mut order); }
    let mut interleave = r.pct(50);
    let mut pending = edges.clone();
    pending.reverse();
    let mut seen = vec![false; n];
    // part of it by a list, the rest one by one
    let mut base = None;
    if n > 0 && r.pct(40) {
        if r.pct(50) {
            let k = r.range(1, n);
            let mut at = vec![usize::MAX; n];
            for (i, &v) in order[..k].iter().enumerate() { at[v] = i; }
            let mut taken: BTreeSet<usize> = (0..k).collect();
            for &v in &order[..k] { l[v] = at[v]; }
            for &v in &order[k..] { while taken.contains(&l[v]) { l[v] = if r.pct(50) { l[v].wrapping_add(1) } else { r.u64() as usize }; } taken.insert(l[v]); }
            let mut adj = vec![vec![]; k];
            let most = r.range(40, 100);
            pending.retain(|&(a, b)| {
                if at[a] == usize::MAX || at[b] == usize::MAX || r.below(100) >= most { return true; }
                adj[at[a]].push(at[b]);
                if a != b { adj[at[b]].push(at[a]); }
                false
            });
            arrange_rows(r, &mut adj);
            for &v in &order[..k] { seen[v] = true; }
            m = Model::from_adj(&adj);
            base = Some(Build::Adj(adj));
        } else if !pending.is_empty() {
            let k = r.range(1, pending.len());
            let first: Vec<(usize, usize)> = pending.split_off(pending.len() - k).into_iter().rev().collect();
            for &(a, b) in &first { seen[a] = true; seen[b] = true; }
            let es: Vec<_> = first.iter().map(|&(a, b)| (l[a], l[b])).collect();
            m = Model::from_edges(&es);
            base = Some(Build::Edges(es));
        }
        interleave = true;
    }
    let refused = if r.pct(40) { o.refused } else { 0 };
    let put = |r: &mut Rng, m: &mut Model, ops: &mut Vec<Op>, op: Op| {
        match op { Op::Node(v) => m.add_node(v).unwrap(), Op::Edge(a, b) => m.add_edge(a, b).unwrap() }
        ops.push(op);
        if r.pct(refused) {
            match r.below(3) {
                0 => ops.push(Op::Node(*r.pick(&m.nodes))),
                1 if m.m() > 0 => { let e = *r.pick(&m.edges); ops.push(if r.pct(50) { Op::Edge(e.0, e.1) } else { Op::Edge(e.1, e.0) }); }
                _ => { let mut x = r.below(3 * m.n() + 3); while m.has(x) { x = x.wrapping_add(1); } let v = *r.pick(&m.nodes); ops.push(match r.below(3) { 0 => Op::Edge(x, v), 1 => Op::Edge(v, x), _ => Op::Edge(x, x) }); }
            }
        }
    };
    if interleave {
        if base.is_some() && seen.iter().all(|&x| x) { order.clear(); }
        for (k, &v) in order.iter().enumerate() {
            if !seen[v] { put(r, &mut m, &mut ops, Op::Node(l[v])); }
            seen[v] = true;
            if n > 3000 && k % (n / 10) != 0 { continue; }
            let mut rest = vec![];
            while let Some((a, b)) = pending.pop() {
                if seen[a] && seen[b] { put(r, &mut m, &mut ops, Op::Edge(l[a], l[b])); } else { rest.push((a, b)); }
            }
            rest.reverse();
            pending = rest;
        }
    } else {
        for &v in &order { put(r, &mut m, &mut ops, Op::Node(l[v])); }
        while let Some((a, b)) = pending.pop() { put(r, &mut m, &mut ops, Op::Edge(l[a], l[b])); }
    }
    // what is left when no node was
    while let Some((a, b)) = pending.pop() { put(r, &mut m, &mut ops, Op::Edge(l[a], l[b])); }
    let build = match base { None => Build::Ops(ops), Some(b) => Build::Then(Box::new(b), ops) };
    Spec { fam: s.fam, names, model: m, build }
}

impl Spec {
    pub fn is_default(&self) -> bool { !matches!(self.build, Build::Own) }
    pub fn own(&self) -> Own { Own(self.model.clone()) }
    pub fn lazy(&self) -> Lazy { Lazy(self.model.clone()) }
    /// The subject's own graph, built by the chosen route.
    pub fn graph(&self) -> R<DefaultGraph> { build(&self.build) }
    pub fn key(&self) -> Key {
        let mut k = Key::new();
        let m = &self.model;
        k.add(m.n() as u64).add(m.m() as u64).add(match self.build { Build::Own => 1, Build::Adj(_) => 2, Build::Edges(_) => 3, Build::Ops(_) => 4, Build::Then(..) => 5 });
        for (v, r) in m.nodes.iter().zip(&m.nbr) { k.add(*v as u64); for &x in r { k.add(x as u64); } }
        k
    }
    pub fn show(&self) -> String {
        let mut b = format!("{:?}", self.build);
        if b.len() > 6000 { b.truncate(6000); b.push_str("..."); }
        format!("family {} names {} n={} m={} built as {} => {}", self.fam, self.names, self.model.n(), self.model.m(), b, self.model.show())
    }
}

/// Inserts one by one; every insertion has to succeed or be refused as the model says.
fn insert(g: &mut DefaultGraph, m: &mut Model, ops: &[Op]) -> R {
    subj("add_node/add_edge", || {
        for &op in ops {
            let (want, got) = match op {
                Op::Node(v) => (m.add_node(v).is_ok(), g.add_node(v).is_ok()),
                Op::Edge(a, b) => (m.add_edge(a, b).is_ok(), g.add_edge(a, b).is_ok()),
            };
            if want != got { return Err(Fail::v(format!("{:?} should {}", op, if want { "succeed" } else { "be refused" }))); }
        }
        Ok(())
    })?
}
pub fn build(b: &Build) -> R<DefaultGraph> {
    match b {
        Build::Adj(a) => {
            let a = a.clone();
            match subj("try_from(adjacency)", || DefaultGraph::try_from(a))? { Ok(g) => Ok(g), Err(e) => Err(Fail::v(format!("valid adjacency list refused: {:?}", e))) }
        }
        Build::Edges(es) => {
            let es = es.clone();
            match subj("try_from(edges)", || DefaultGraph::try_from(es))? { Ok(g) => Ok(g), Err(e) => Err(Fail::v(format!("valid edge list refused: {:?}", e))) }
        }
        Build::Ops(ops) => {
            let mut g = subj("DefaultGraph::new", DefaultGraph::new)?;
            insert(&mut g, &mut Model::new(), ops)?;
            Ok(g)
        }
        Build::Then(first, ops) => {
            let mut g = build(first)?;
            let mut m = match &**first { Build::Adj(a) => Model::from_adj(a), Build::Edges(es) => Model::from_edges(es), _ => panic!("no such route") };
            insert(&mut g, &mut m, ops)?;
            Ok(g)
        }
        Build::Own => panic!("no DefaultGraph route"),
    }
}

/// Standard size distribution: mostly small, some medium, few large.
pub fn size(r: &mut Rng, top: usize) -> usize {
    let x = r.below(100);
    let m = if x < 40 { 8 } else if x < 80 { 24 } else if x < 97 { 80 } else { 300 };
    m.min(top)
}

/// The n-th case of the standard corpus: all small graphs first (each several times, with different
/// names and orders), then random ones, then big ones.
pub struct Plan { pub huge: u64, pub small_n: usize, pub small_reps: u64, pub random: u64, pub big_reps: u64, pub big_scale: usize, pub top: usize }
impl Plan {
    pub fn small(&self) -> u64 { small_count(self.small_n) * self.small_reps }
    pub fn len(&self) -> u64 { small_count(self.small_n) * self.small_reps + self.random + self.big_reps * BIG as u64 + self.huge }
    pub fn shape(&self, r: &mut Rng, idx: u64) -> (Shape, &'static str) {
        let s = small_count(self.small_n) * self.small_reps;
        if idx < s { return (small(idx / self.small_reps), "exhaustive-small"); }
        let i = idx - s;
        if i < self.random { let k = size(r, self.top); return (shape(r, k), "random"); }
        let i = i - self.random;
        if i < self.big_reps * BIG as u64 { return (big(r, i as usize, self.big_scale), "big"); }
        (huge(r, (i - self.big_reps * BIG as u64) as usize), "huge")
    }
}
