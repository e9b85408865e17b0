//! C15-C20: matchings and pairings.
use crate::ctx::{quietly, subj, Ctx, R};
use crate::gen::{self, Opt, Plan, Spec};
use crate::model::Model;
use crate::oracle::{maximum, maximum_dp, Matching};
use crate::rng::{Key, Rng};
use gamma::graph::Graph;
use gamma::matching::{greedy, maximum_matching, Pairing};
use std::collections::{BTreeMap, BTreeSet};

/// All views of a pairing agree; gives its pairs, sorted.
pub fn pairing_views(p: &Pairing, known: &[usize], strangers: &[usize]) -> R<Vec<(usize, usize)>> {
    let (mut es, order) = subj("edges/order", || (p.edges().collect::<Vec<_>>(), p.order()))?;
    es.sort();
    let mut mate: BTreeMap<usize, usize> = BTreeMap::new();
    for &(a, b) in &es {
        ensure!(a < b, "pair ({},{}) is not listed lower id first", a, b);
        for (x, y) in [(a, b), (b, a)] { if let Some(z) = mate.insert(x, y) { fail!("node {} is in two listed pairs, with {} and {}; pairs {:?}", x, z, y, es); } }
    }
    ensure!(order == 2 * es.len(), "order is {} with the pairs {:?}", order, es);
    for &x in known.iter().chain(strangers) {
        let h = subj("has_node", || p.has_node(x))?;
        ensure!(h == mate.contains_key(&x), "has_node({}) is {} with the pairs {:?}", x, h, es);
    }
    for (&x, &y) in &mate {
        let (h, z) = subj("mate of a matched node", || (p.has_node(x), p.mate(x)))?;
        ensure!(h && z == y, "has_node({}) is {} and its mate {} with the pairs {:?}", x, h, z, es);
    }
    Ok(es)
}
/// The pairs are a matching of the graph.
pub fn valid(es: &[(usize, usize)], m: &Model) -> R {
    for &(a, b) in es { ensure!(a != b && m.has(a) && m.has(b) && m.joined(a, b), "pair ({},{}) is not an edge of the graph; pairs {:?}", a, b, es); }
    Ok(())
}

pub fn oracle(m: &Model) -> Matching {
    let adj = m.adj_idx();
    let o = maximum(&adj);
    assert!(o.certified, "oracle could not certify its matching of {}", m.show());
    if m.n() <= 10 { assert_eq!(maximum_dp(&adj), o.size, "oracles disagree on {}", m.show()); }
    o
}
pub fn oracle_pairs(o: &Matching, m: &Model) -> Vec<(usize, usize)> {
    (0..m.n()).filter(|&i| o.mate[i] != usize::MAX && i < o.mate[i]).map(|i| (m.nodes[i], m.nodes[o.mate[i]])).collect()
}

/// A valid starting matching, and what kind it is.
pub fn start(r: &mut Rng, m: &Model, o: &Matching, kind: usize) -> (Vec<(usize, usize)>, &'static str) {
    let mut es: Vec<(usize, usize)> = m.edges.iter().cloned().filter(|e| e.0 != e.1).collect();
    match kind {
        0 => (vec![], "empty"),
        1 | 2 => {
            r.shuffle(&mut es);
            let p = if kind == 1 { r.range(20, 80) } else { 100 };
            let mut used = BTreeSet::new();
            let mut out = vec![];
            for (a, b) in es { if !used.contains(&a) && !used.contains(&b) && r.pct(p) { used.insert(a); used.insert(b); out.push((a, b)); } }
            (out, if kind == 1 { "partial" } else { "maximal" })
        }
        3 => (oracle_pairs(o, m), "maximum"),
        7 => {
            // a maximum matching without one pair, whose freed ends then wander along alternating
            // paths without turning back: the one augmenting path left is as long as can be
            let mut pairs = oracle_pairs(o, m);
            if pairs.is_empty() { return (pairs, "drifted"); }
            let hub = *m.nodes.iter().max_by_key(|v| m.of(**v).len()).unwrap();
            let p = match pairs.iter().position(|e| e.0 == hub || e.1 == hub) { Some(p) if r.pct(50) => p, _ => r.below(pairs.len()) };
            let (a, b) = pairs.swap_remove(p);
            let mut mate: BTreeMap<usize, usize> = BTreeMap::new();
            for (a, b) in pairs { mate.insert(a, b); mate.insert(b, a); }
            let mut been: BTreeSet<usize> = BTreeSet::new();
            let far = r.below(4);
            for mut f in [a, b] {
                let mut left = match far { 0 => 0, 1 => r.below(m.n() + 1), _ => m.n() };
                while left > 0 {
                    left -= 1;
                    been.insert(f);
                    let nb: Vec<usize> = m.of(f).iter().cloned().filter(|x| mate.contains_key(x) && !been.contains(x) && !been.contains(&mate[x])).collect();
                    if nb.is_empty() { break; }
                    let w = *r.pick(&nb);
                    let x = mate[&w];
                    been.insert(w);
                    mate.remove(&x);
                    mate.insert(w, f);
                    mate.insert(f, w);
                    f = x;
                }
            }
            (mate.iter().filter(|(a, b)| a < b).map(|(a, b)| (*a, *b)).collect(), "drifted")
        }
        _ => {
            // a maximum matching, stirred along even alternating paths, minus some pairs: few
            // augmenting paths are left and they are hard to find
            let mut mate: BTreeMap<usize, usize> = BTreeMap::new();
            for (a, b) in oracle_pairs(o, m) { mate.insert(a, b); mate.insert(b, a); }
            for _ in 0..r.range(0, 1 + m.n() / 2) {
                let free: Vec<usize> = m.nodes.iter().cloned().filter(|v| !mate.contains_key(v)).collect();
                if free.is_empty() { break; }
                let f = *r.pick(&free);
                let nb: Vec<usize> = m.of(f).iter().cloned().filter(|&x| x != f && mate.contains_key(&x)).collect();
                if nb.is_empty() { continue; }
                let w = *r.pick(&nb);
                let x = mate[&w];
                mate.remove(&x);
                mate.insert(w, f);
                mate.insert(f, w);
            }
            let mut pairs: Vec<(usize, usize)> = mate.iter().filter(|(a, b)| a < b).map(|(a, b)| (*a, *b)).collect();
            r.shuffle(&mut pairs);
            let drop = if kind == 4 { 1 } else { r.range(1, 3) };
            for _ in 0..drop { pairs.pop(); }
            // a second stirring with the freed nodes
            let mut mate: BTreeMap<usize, usize> = BTreeMap::new();
            for (a, b) in pairs { mate.insert(a, b); mate.insert(b, a); }
            for _ in 0..r.range(0, 2 + m.n()) {
                let free: Vec<usize> = m.nodes.iter().cloned().filter(|v| !mate.contains_key(v)).collect();
                if free.is_empty() { break; }
                let f = *r.pick(&free);
                let nb: Vec<usize> = m.of(f).iter().cloned().filter(|&x| x != f && mate.contains_key(&x)).collect();
                if nb.is_empty() { continue; }
                let w = *r.pick(&nb);
                let x = mate[&w];
                mate.remove(&x);
                mate.insert(w, f);
                mate.insert(f, w);
            }
            (mate.iter().filter(|(a, b)| a < b).map(|(a, b)| (*a, *b)).collect(), "stirred")
        }
    }
}
/// A Pairing holding these pairs, possibly after displaced ones.
pub fn pairing(r: &mut Rng, pairs: &[(usize, usize)]) -> R<Pairing> {
    let mut p = pairs.to_vec();
    r.shuffle(&mut p);
    let detour = r.pct(20);
    let mut calls = vec![];
    if detour { for w in p.windows(2) { if r.pct(30) { calls.push((w[0].0, w[1].1)); } } }
    calls.extend(p.iter().map(|&(a, b)| if r.pct(50) { (a, b) } else { (b, a) }));
    subj("pair", || { let mut x = Pairing::new(); for (a, b) in calls { x.pair(a, b); } x })
}

#[derive(Clone, Copy, PartialEq)]
enum W { Greedy, Valid, Max, Keep }

fn mm<G: Graph>(c: &mut Ctx, g: &G, sp: &Spec, r: &mut Rng, w: W, kinds: &[usize]) -> R {
    let m = &sp.model;
    // (a maximal matching has half the pairs of a maximum one; on huge graphs the oracle is too slow)
    let o = if w == W::Greedy && m.n() > 20_000 { Matching { mate: vec![], size: 0, certified: true, blossoms: 0, barrier: 0 } } else { c.count("certificates_checked", 1); oracle(m) };
    c.count("oracle_blossoms", o.blossoms);
    if o.barrier > 0 { c.count("certificates_with_nonempty_barrier", 1); }
    let out: Vec<usize> = crate::props::graph::strangers(r, m, 6);
    if w == W::Greedy {
        let p = subj("greedy", || greedy(g))?;
        let es = pairing_views(&p, &m.nodes, &out)?;
        valid(&es, m)?;
        let used: BTreeSet<usize> = es.iter().flat_map(|e| [e.0, e.1]).collect();
        for &(a, b) in &m.edges { ensure!(a == b || used.contains(&a) || used.contains(&b), "edge ({},{}) could be added to the greedy matching {:?}", a, b, es); }
        ensure!(2 * es.len() >= o.size, "greedy matching {:?} has less than half of the maximum {}", es, o.size);
        c.count("greedy_pairs_observed", es.len() as u64);
        if es.len() == o.size { c.count("greedy_was_maximum", 1); }
        c.eval(if m.m() > 0 { Some(sp.key().get()) } else { None });
        return Ok(());
    }
    for &kind in kinds {
        let (init, name) = if kind == 6 {
            let p = subj("greedy", || greedy(g))?;
            let es = pairing_views(&p, &[], &[])?;
            if valid(&es, m).is_err() { continue; } // C15's business
            (es, "greedy")
        } else { start(r, m, &o, kind) };
        let mut p = if kind == 6 && r.pct(50) { subj("greedy", || greedy(g))? } else { pairing(r, &init)? };
        let before = pairing_views(&p, &m.nodes, &[])?;
        let res = (|| -> R {
            subj("maximum_matching", || maximum_matching(g, &mut p))?;
            let es = pairing_views(&p, &m.nodes, &out)?;
            match w {
                W::Valid => valid(&es, m)?,
                W::Max => {
                    valid(&es, m)?;
                    ensure!(es.len() == o.size, "{} pairs {:?}, but a matching of {} exists: {:?}", es.len(), es, o.size, oracle_pairs(&o, m));
                }
                _ => {
                    let now: BTreeSet<usize> = es.iter().flat_map(|e| [e.0, e.1]).collect();
                    for (a, b) in &before { for x in [a, b] { ensure!(now.contains(x), "node {} was matched and no longer is; before {:?}, after {:?}", x, before, es); } }
                    ensure!(es.len() >= before.len(), "fewer pairs than before: {:?}, then {:?}", before, es);
                    if before.len() == o.size { ensure!(before == es, "an already maximum matching {:?} was changed to {:?}", before, es); c.count("already_maximum", 1); }
                    subj("maximum_matching again", || maximum_matching(g, &mut p))?;
                    let again = pairing_views(&p, &m.nodes, &[])?;
                    ensure!(again == es, "a second run changed {:?} to {:?}", es, again);
                }
            }
            c.count("pairs_observed", es.len() as u64);
            c.count("augmentations_observed", (es.len() - before.len().min(es.len())) as u64);
            if es.len() - before.len().min(es.len()) == 1 { c.count("runs_with_one_augmentation", 1); }
            Ok(())
        })();
        c.count(match name { "empty" => "start_empty", "partial" => "start_partial", "maximal" => "start_maximal", "maximum" => "start_maximum", "greedy" => "start_greedy", "drifted" => "start_drifted", _ => "start_stirred" }, 1);
        let mut k = sp.key();
        for e in &init { k.add(e.0 as u64).add(e.1 as u64); }
        c.eval(if m.m() > 0 { Some(k.get()) } else { None });
        res.map_err(|f| f.with(|| format!("starting matching ({}) {:?}", name, init)))?;
    }
    Ok(())
}

/// Sizes the subject's (slow) algorithm can take.
fn shape_for(r: &mut Rng, c: &Ctx, p: &Plan, w: W) -> (gen::Shape, &'static str) {
    let (mut s, class) = p.shape(r, c.idx);
    if w != W::Greedy && class == "huge" { s = large(r, c.idx as usize); }
    (s, class)
}
/// Large shapes whose maximum matching the subject finds in time when it starts near the end.
pub fn large(r: &mut Rng, k: usize) -> gen::Shape {
    let n = 65_540 + r.below(2000);
    let fours = |k: usize| (0..k).flat_map(|i| [(4 * i, 4 * i + 1), (4 * i + 1, 4 * i + 2), (4 * i + 2, 4 * i + 3)]).collect();
    match k % 10 {
        0 => gen::Shape { n: 2 * n, edges: (0..n).map(|i| (2 * i, 2 * i + 1)).collect(), fam: "huge-pairs" },
        1 => gen::Shape { n: n & !3, edges: fours(n / 4), fam: "huge-fours" },
        2 => { let n = r.range(1500, 6000); gen::Shape { n: 2 * n, edges: (1..2 * n).map(|i| (i - 1, i)).collect(), fam: "long-path" } }
        4 | 5 | 6 => { let n = gen::width(r, 40, 300); gen::wide(r, n) }
        7 | 8 | 9 => { let n = *r.pick(&[300, 600, 1200]); gen::shape(r, n) }
        _ => { let n = 2 * r.range(100, 2500) + 1; gen::Shape { n: n + 1, edges: (0..n).map(|i| (i, (i + 1) % n)).chain([(r.below(n), n)]).collect(), fam: "long-blossom" } }
    }
}
fn corpus(c: &mut Ctx, p: &Plan, w: W) -> R {
    let mut r = c.rng.clone();
    let (s, class) = shape_for(&mut r, c, p, w);
    let sp = gen::spec(&mut r, s, Opt::default());
    let kinds: Vec<usize> = match class {
        "exhaustive-small" => vec![0, 1 + r.below(7)],
        "big" => vec![*r.pick(&[0, 2, 4, 6, 7])],
        "huge" => vec![7],
        _ => { let n = sp.model.n(); if n <= 24 { vec![0, 1 + r.below(2), 3 + r.below(3), 4 + r.below(2), 6, 7] } else if n <= 90 { vec![r.below(2), 3 + r.below(4), 7] } else { vec![r.below(7), 7] } }
    };
    let res = (|| -> R { if sp.is_default() { let g = sp.graph()?; mm(c, &g, &sp, &mut r, w, &kinds) } else if r.pct(50) || (class == "big" || class == "huge") { mm(c, &sp.own(), &sp, &mut r, w, &kinds) } else { mm(c, &sp.lazy(), &sp, &mut r, w, &kinds) } })();
    c.count(match class { "huge" => "huge_graphs", "big" => "big_graphs", "random" => "random_graphs", _ => "exhaustive_small_graphs" }, 1);
    c.max("largest_graph", sp.model.n() as u64);
    c.sample(|| format!("{} start kinds {:?}", sp.show(), kinds));
    res.map_err(|f| f.with(|| sp.show()))
}
pub fn plan(t: bool) -> Plan { if t { Plan { huge: 2000, small_n: 6, small_reps: 6, random: 600_000, big_reps: 8, big_scale: 6, top: 160 } } else { Plan { huge: 300, small_n: 5, small_reps: 10, random: 150_000, big_reps: 3, big_scale: 5, top: 130 } } }
pub fn len(t: bool) -> u64 { plan(t).len() }
pub fn plan15(t: bool) -> Plan { if t { Plan { huge: 12, small_n: 6, small_reps: 4, random: 150_000, big_reps: 4, big_scale: 20, top: 300 } } else { Plan { huge: 6, small_n: 5, small_reps: 10, random: 60_000, big_reps: 2, big_scale: 12, top: 300 } } }
pub fn len15(t: bool) -> u64 { plan15(t).len() }
pub fn c15(c: &mut Ctx) -> R { let p = plan15(c.thorough()); corpus(c, &p, W::Greedy) }
pub fn c16(c: &mut Ctx) -> R { let p = plan(c.thorough()); corpus(c, &p, W::Valid) }
pub fn c17(c: &mut Ctx) -> R { let p = plan(c.thorough()); corpus(c, &p, W::Max) }
pub fn c18(c: &mut Ctx) -> R { let p = plan(c.thorough()); corpus(c, &p, W::Keep) }

// ---------------------------------------------------------------- C19, C20

#[derive(Clone, Default)]
pub struct Pairs { mate: BTreeMap<usize, usize> }
impl Pairs {
    pub fn free(&mut self, x: usize) { if let Some(y) = self.mate.remove(&x) { self.mate.remove(&y); } }
    pub fn pair(&mut self, a: usize, b: usize) { self.free(a); self.free(b); self.mate.insert(a, b); self.mate.insert(b, a); }
    pub fn list(&self) -> Vec<(usize, usize)> { self.mate.iter().filter(|(a, b)| a < b).map(|(a, b)| (*a, *b)).collect() }
}

fn pair_seq(c: &mut Ctx, ops: &[(usize, usize)], pool: &[usize], r: &mut Rng, every: usize) -> R {
    let mut m = Pairs::default();
    let mut p = subj("Pairing::new", Pairing::new)?;
    for (i, &(a, b)) in ops.iter().enumerate() {
        let displaced = [a, b].iter().filter(|x| m.mate.contains_key(x)).count();
        // asked right before and, likewise, right after
        let x = if r.pct(30) { Some(match r.below(4) { 0 => a, 1 => b, 2 => m.mate.get(&a).copied().unwrap_or(b), _ => m.mate.get(&b).copied().unwrap_or(a) }) } else { None };
        let ask = |p: &Pairing, m: &Pairs, x: usize| -> R {
            let h = subj("has_node", || p.has_node(x))?;
            ensure!(h == m.mate.contains_key(&x), "has_node({}) is {} with the pairs {:?}", x, h, m.list());
            if let Some(&y) = m.mate.get(&x) { let z = subj("mate of a matched node", || p.mate(x))?; ensure!(y == z, "mate({}) is {} with the pairs {:?}", x, z, m.list()); }
            let o = subj("order", || p.order())?;
            ensure!(o == m.mate.len(), "order is {} with the pairs {:?}", o, m.list());
            Ok(())
        };
        if let Some(x) = x { ask(&p, &m, x)?; c.count("calls_asked_about_before_and_after", 1); }
        m.pair(a, b);
        subj("pair", || p.pair(a, b))?;
        if let Some(x) = x { ask(&p, &m, x)?; }
        c.count("pair_calls", 1);
        c.count("displacements", displaced as u64);
        if i % every != 0 && i + 1 != ops.len() { continue; }
        let es = pairing_views(&p, pool, &[r.u64() as usize])?;
        let x = if r.pct(80) { *r.pick(pool) } else { r.u64() as usize };
        if !m.mate.contains_key(&x) { let got = quietly(|| p.mate(x)); ensure!(got.is_err(), "mate({}) of a node in no pair gives {:?}; pairs {:?}", x, got, es); c.count("mates_refused", 1); }
        ensure!(es == m.list(), "after {} calls the pairs are {:?}, expected {:?}", i + 1, es, m.list());
        c.count("observations", 1);
    }
    // equality depends on the pairs alone
    let mut l = m.list();
    r.shuffle(&mut l);
    let q = subj("pair", || { let mut q = Pairing::new(); for &(a, b) in &l { if a % 2 == 0 { q.pair(a, b) } else { q.pair(b, a) } } q })?;
    let (x, y) = subj("==", || (p == q, q == p))?;
    ensure!(x && y, "pairings of the same pairs {:?} compare {} and {}", m.list(), x, y);
    if !l.is_empty() {
        let mut z = Pairs { mate: m.mate.clone() };
        let e = l[0];
        match if l.len() < 2 { 0 } else { r.below(5) } {
        0 => z.free(e.0),
        1 => { let f = l[1]; z.pair(e.0, f.1); }
            // the same nodes, otherwise paired
            k => { let (f, g) = (l[1], *l.last().unwrap());
                let f = if r.pct(50) { f } else { (f.1, f.0) };
                z.pair(e.0, f.0);
                if k == 4 && l.len() > 2 { let g = if r.pct(50) { g } else { (g.1, g.0) }; z.pair(e.1, g.0); z.pair(f.1, g.1); } else { z.pair(e.1, f.1); }
                c.count("unequal_pairings_of_the_same_nodes", 1); }
        }
        let zl = z.list();
        let q = subj("pair", || { let mut q = Pairing::new(); for &(a, b) in &zl { q.pair(a, b); } q })?;
        let (x, y, w) = subj("==", || (p == q, q != p, q == p))?;
        ensure!(!x && y && !w, "pairings of {:?} and {:?} compare equal", m.list(), zl);
    }
    c.count("equalities_observed", 2);
    Ok(())
}
const CHUNK: u64 = 64;
pub fn len19(t: bool) -> u64 { 20736 / CHUNK + if t { 1_000_000 } else { 100_000 } }
pub fn c19(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let ex = 20736 / CHUNK;
    if c.idx < ex {
        let mut all = vec![];
        for a in 0..4 { for b in 0..4 { if a != b { all.push((a, b)); } } }
        let (l, names) = gen::labels(&mut r, 4);
        for i in c.idx * CHUNK..(c.idx + 1) * CHUNK {
            let mut k = i as usize;
            let ops: Vec<(usize, usize)> = (0..4).map(|_| { let e: (usize, usize) = all[k % 12]; k /= 12; (l[e.0], l[e.1]) }).collect();
            pair_seq(c, &ops, &l, &mut r, 1).map_err(|f| f.with(|| format!("pair calls {:?}", ops)))?;
            let mut key = Key::new();
            key.add(i);
            c.eval(Some(key.get()));
            c.count("exhaustive_sequences", 1);
        }
        let idx = c.idx;
        c.sample(|| format!("all sequences of four calls over ids {:?} ({}), chunk {}", l, names, idx));
        return Ok(());
    }
    let long = c.idx % 100 == 99;
    let huge = c.idx % 25_000 == 24_999;
    let n = if let (false, Some(c)) = (huge || long, gen::tuned(&mut r, 1000)) { c.max(2) } else if huge { 150_000 } else if c.idx % 2000 == 1999 { r.range(1000, 5000) } else if long { r.range(2, 600) } else { r.range(2, 14) };
    let (l, names) = gen::labels(&mut r, n);
    let len = if let (false, Some(c)) = (huge || long, gen::tuned(&mut r, 3000)) { c } else if huge { 200_000 } else if n > 600 { r.range(2000, 12000) } else if long { r.range(100, 3000) } else { r.range(1, 60) };
    let ops: Vec<(usize, usize)> = (0..len).map(|_| { let i = r.below(n); let mut j = r.below(n - 1); if j >= i { j += 1; } (l[i], l[j]) }).collect();
    let res = pair_seq(c, &ops, &l, &mut r, if huge { 66_000 } else if n > 600 { 997 } else if long { 97 } else { 1 }).map_err(|f| f.with(|| format!("pair calls {:?}", ops)));
    c.count("histories", 1);
    c.max("longest_history", len as u64);
    let mut key = Key::new();
    for o in &ops { key.add(o.0 as u64).add(o.1 as u64); }
    c.sample(|| format!("names {} pair calls {:?}", names, ops));
    c.eval(if len > 1 { Some(key.get()) } else { None });
    res
}

pub fn len20(t: bool) -> u64 { if t { 1_500_000 } else { 200_000 } }
pub fn c20(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let long = c.idx % 100 == 99;
    let huge = c.idx % 50_000 == 49_999;
    let n = if let (false, Some(c)) = (huge || long, gen::tuned(&mut r, 3000)) { c } else if huge { 160_000 } else if c.idx % 2000 == 1999 { r.range(2000, 6000) } else if long { r.range(50, 800) } else { r.range(1, 16) };
    let (l, names) = gen::labels(&mut r, n);
    let mut calls: Vec<(usize, usize)> = vec![];
    let mut log: Vec<Vec<usize>> = vec![];
    let mut m = Pairs::default();
    let fill = if huge { n } else { r.range(0, n) };
    for _ in 0..fill { if n < 2 { break; } let i = r.below(n); let mut j = r.below(n - 1); if j >= i { j += 1; } calls.push((l[i], l[j])); m.pair(l[i], l[j]); }
    let res = (|| -> R {
        let mut p = subj("pair", || { let mut p = Pairing::new(); for &(a, b) in &calls { p.pair(a, b); } p })?;
        let rounds = if long { 3 } else { r.range(1, 4) };
        for _ in 0..rounds {
            // a path: arbitrary distinct nodes, or a true augmenting path of the present pairs
            let mut order: Vec<usize> = l.clone();
            r.shuffle(&mut order);
            let augmenting = r.pct(40);
            let mut path: Vec<usize> = vec![];
            if augmenting {
                let free: Vec<usize> = order.iter().cloned().filter(|x| !m.mate.contains_key(x)).collect();
                if free.len() >= 2 {
                    let k = r.below(m.list().len() + 1);
                    path.push(free[0]);
                    let mut ps = m.list();
                    r.shuffle(&mut ps);
                    for &(a, b) in ps.iter().take(k) { if r.pct(50) { path.extend([a, b]) } else { path.extend([b, a]) } }
                    path.push(free[1]);
                }
            } else {
                let k = r.range(0, n);
                path = order[..k].to_vec();
            }
            let real = augmenting && !path.is_empty();
            log.push(path.clone());
            let before = pairing_views(&p, &l, &[])?;
            let arg = path.clone();
            if path.len() % 2 == 1 {
                let res = quietly(|| p.augment(arg));
                ensure!(res.is_err(), "path {:?} of odd length was accepted", path);
                let after = pairing_views(&p, &l, &[])?;
                ensure!(before == after, "rejected path {:?} changed the pairs from {:?} to {:?}", path, before, after);
                c.count("odd_paths_rejected", 1);
                continue;
            }
            subj("augment", || p.augment(arg))?;
            for i in (0..path.len()).step_by(2) { m.pair(path[i], path[i + 1]); }
            let es = pairing_views(&p, &l, &[r.u64() as usize])?;
            ensure!(es == m.list(), "augmenting {:?} along {:?} gives {:?}, expected {:?}", before, path, es, m.list());
            if real {
                ensure!(es.len() == before.len() + 1, "an augmenting path {:?} turned {} pairs into {}", path, before.len(), es.len());
                c.count("true_augmenting_paths", 1);
            }
            c.count("even_paths", 1);
            c.max("longest_path", path.len() as u64);
        }
        Ok(())
    })();
    let mut key = Key::new();
    for o in &calls { key.add(o.0 as u64).add(o.1 as u64); }
    for p in &log { key.add(7); for &x in p { key.add(x as u64); } }
    c.sample(|| format!("names {} pairs {:?} then paths {:?}", names, calls, log));
    c.eval(if log.iter().any(|p| p.len() > 1) { Some(key.get()) } else { None });
    res.map_err(|f| f.with(|| format!("pair calls {:?} then paths {:?}", calls, log)))
}
