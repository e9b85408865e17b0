//! C01-C07: the graph itself.
use crate::ctx::{quietly, subj, Ctx, Fail, R};
use crate::gen::{self, Build, Op, Opt, Plan, Spec};
use crate::model::{norm, Model, ModelErr};
use crate::rng::{Key, Rng};
use gamma::graph::{DefaultGraph, Error, Graph};
use gamma::traversal::{BreadthFirst, DepthFirst};
use std::collections::BTreeSet;
use std::convert::TryFrom;

/// Everything a user can observe, in the order given.
#[derive(PartialEq, Debug, Clone)]
pub struct Snap { pub empty: bool, pub order: usize, pub size: usize, pub nodes: Vec<usize>, pub edges: Vec<(usize, usize)>, pub nbr: Vec<Vec<usize>>, pub deg: Vec<usize> }

fn missing(e: &Error) -> Option<usize> { if let Error::MissingNode(x) = e { Some(*x) } else { None } }

pub fn snap<G: Graph>(g: &G) -> R<Snap> {
    subj("a query of a listed node", || {
        let nodes: Vec<usize> = g.nodes().collect();
        let mut nbr = vec![];
        let mut deg = vec![];
        for &v in &nodes {
            match g.neighbors(v) { Ok(i) => nbr.push(i.collect()), Err(e) => return Err(Fail::v(format!("neighbors({}) of a listed node: {:?}", v, e))) }
            match g.degree(v) { Ok(d) => deg.push(d), Err(e) => return Err(Fail::v(format!("degree({}) of a listed node: {:?}", v, e))) }
        }
        Ok(Snap { empty: g.is_empty(), order: g.order(), size: g.size(), nodes, edges: g.edges().collect(), nbr, deg })
    })?
}

/// C01: all queries describe exactly the model's graph (orders left aside).
pub fn views<G: Graph>(g: &G, m: &Model, r: &mut Rng, all_pairs: usize) -> R<u64> {
    let mut obs = 6u64;
    let s = snap(g)?;
    let nodes: BTreeSet<usize> = s.nodes.iter().cloned().collect();
    ensure!(nodes.len() == s.nodes.len(), "a node is listed twice: {:?}", s.nodes);
    ensure!(nodes == m.node_set(), "nodes {:?}, expected {:?}", nodes, m.node_set());
    ensure!(s.order == m.n(), "order {} but {} nodes", s.order, m.n());
    ensure!(s.empty == (m.n() == 0), "is_empty {} with {} nodes", s.empty, m.n());
    let es: BTreeSet<(usize, usize)> = s.edges.iter().map(|&e| norm(e)).collect();
    ensure!(es.len() == s.edges.len(), "an edge is listed twice: {:?}", s.edges);
    ensure!(es == m.eset, "edges {:?}, expected {:?}", es, m.eset);
    ensure!(s.size == m.m(), "size {} but {} edges", s.size, m.m());
    for (i, &v) in s.nodes.iter().enumerate() {
        let got: BTreeSet<usize> = s.nbr[i].iter().cloned().collect();
        ensure!(got.len() == s.nbr[i].len(), "node {} lists a neighbor twice: {:?}", v, s.nbr[i]);
        let want: BTreeSet<usize> = m.of(v).iter().cloned().collect();
        ensure!(got == want, "neighbors of {}: {:?}, expected {:?}", v, got, want);
        ensure!(s.deg[i] == want.len(), "degree of {} is {} with {} neighbors", v, s.deg[i], want.len());
        obs += 2;
    }
    let ask = |a: usize, b: usize| -> R {
        let got = subj("has_edge", || g.has_edge(a, b))?;
        match got { Ok(x) => { ensure!(x == m.joined(a, b), "has_edge({},{}) is {}", a, b, x); Ok(()) } Err(e) => Err(Fail::v(format!("has_edge({},{}) of listed nodes: {:?}", a, b, e))) }
    };
    for &v in &m.nodes { let h = subj("has_node", || g.has_node(v))?; ensure!(h, "has_node({}) is false for a listed node", v); obs += 1; }
    if m.n() <= all_pairs {
        for &a in &m.nodes { for &b in &m.nodes { ask(a, b)?; obs += 1; } }
    } else {
        let k = m.m().min(300);
        for i in 0..k { let (a, b) = if m.m() <= 300 { m.edges[i] } else { *r.pick(&m.edges) }; ask(a, b)?; ask(b, a)?; obs += 2; }
        for _ in 0..200 { ask(*r.pick(&m.nodes), *r.pick(&m.nodes))?; obs += 1; }
    }
    for x in strangers(r, m, 6) { let h = subj("has_node", || g.has_node(x))?; ensure!(!h, "has_node({}) is true for an unknown id", x); obs += 1; }
    Ok(obs)
}

/// C03: exact sequences.
pub fn orders<G: Graph>(g: &G, m: &Model) -> R {
    let s = snap(g)?;
    ensure!(s.nodes == m.nodes, "nodes in order {:?}, expected {:?}", s.nodes, m.nodes);
    ensure!(s.edges == m.edges, "edges in order {:?}, expected {:?}", s.edges, m.edges);
    for (i, &v) in m.nodes.iter().enumerate() { ensure!(s.nbr[i] == m.nbr[i], "neighbors of {} in order {:?}, expected {:?}", v, s.nbr[i], m.nbr[i]); }
    Ok(())
}

/// Ids that are not in the graph, chosen close to what is.
pub fn strangers(r: &mut Rng, m: &Model, k: usize) -> Vec<usize> {
    let mut out = vec![];
    for j in 0..4 * k {
        let x = match j % 8 {
            0 => m.n(),
            1 if m.n() > 0 => r.pick(&m.nodes).wrapping_add(1),
            2 if m.n() > 0 => r.pick(&m.nodes).wrapping_sub(1),
            3 => r.below(m.n() + 2),
            4 => usize::MAX,
            5 => r.u64() as usize,
            6 if m.n() > 0 => *r.pick(&m.nodes) ^ (1usize << r.below(64)),
            _ => r.below(3 * m.n() + 4),
        };
        if !m.has(x) && !out.contains(&x) { out.push(x); }
        if out.len() == k { break; }
    }
    out
}

/// C04 on one graph.
fn lookups<G: Graph>(g: &G, m: &Model, r: &mut Rng, k: usize) -> R<u64> {
    let mut obs = 0;
    for x in strangers(r, m, k) {
        let (h, n, d, dfs, bfs) = subj("a lookup of an unknown id", || (g.has_node(x), g.neighbors(x).err(), g.degree(x).err(), DepthFirst::new(g, x).err(), BreadthFirst::new(g, x).err()))?;
        ensure!(!h, "has_node({}) is true for an unknown id", x);
        for (what, e) in [("neighbors", n), ("degree", d), ("DepthFirst::new", dfs), ("BreadthFirst::new", bfs)] {
            ensure!(e == Some(Error::MissingNode(x)), "{}({}) of an unknown id gives {:?}", what, x, e);
        }
        obs += 5;
        let mut others = strangers(r, m, 2);
        others.push(x);
        for _ in 0..3 { if m.n() > 0 { others.push(*r.pick(&m.nodes)); } }
        for y in others {
            for (a, b) in [(x, y), (y, x)] {
                let e = subj("has_edge with an unknown id", || g.has_edge(a, b))?;
                let ok = match &e { Err(e) => missing(e).map_or(false, |z| (z == a || z == b) && !m.has(z)), Ok(_) => false };
                ensure!(ok, "has_edge({},{}) with an unknown end gives {:?}", a, b, e);
                obs += 1;
            }
        }
    }
    let pick: Vec<usize> = if m.n() <= 40 { m.nodes.clone() } else { (0..40).map(|_| *r.pick(&m.nodes)).collect() };
    for &v in &pick {
        let (h, n, d, dfs, bfs) = subj("a lookup of a known id", || (g.has_node(v), g.neighbors(v).err(), g.degree(v).err(), DepthFirst::new(g, v).err(), BreadthFirst::new(g, v).err()))?;
        ensure!(h && n.is_none() && d.is_none() && dfs.is_none() && bfs.is_none(), "lookups of the known id {}: has_node {} neighbors {:?} degree {:?} DepthFirst {:?} BreadthFirst {:?}", v, h, n, d, dfs, bfs);
        let w = *r.pick(&m.nodes);
        for (a, b) in [(v, w), (w, v)] { let e = subj("has_edge", || g.has_edge(a, b).err())?; ensure!(e.is_none(), "has_edge({},{}) of known ids: {:?}", a, b, e); }
        obs += 7;
    }
    Ok(obs)
}

/// Did a refusal name its cause?
fn cause(op: Op, e: &Error, m: &Model) -> bool {
    match (op, e) {
        (Op::Node(v), Error::DuplicateNode(x)) => *x == v && m.has(v),
        (Op::Edge(a, b), Error::MissingNode(x)) => (*x == a || *x == b) && !m.has(*x),
        (Op::Edge(a, b), Error::DuplicateEdge(x, y)) => (*x, *y) == (a, b) && m.joined(a, b),
        _ => false,
    }
}
fn apply(g: &mut DefaultGraph, op: Op) -> R<Result<(), Error>> {
    subj("add_node/add_edge", || match op { Op::Node(v) => g.add_node(v), Op::Edge(a, b) => g.add_edge(a, b) })
}
fn mapply(m: &mut Model, op: Op) -> Result<(), ModelErr> { match op { Op::Node(v) => m.add_node(v), Op::Edge(a, b) => m.add_edge(a, b) } }

#[derive(Clone, Copy, PartialEq)]
pub enum What { Views, Trans, Orders, Lookups }

/// A history: a starting graph by some route, then a run of insertions, valid and not; observed after
/// every one of them (long histories: after a sample of them).
fn history(c: &mut Ctx, what: What) -> R {
    let mut r = c.rng.clone();
    let long = c.idx % 50 == 49;
    let huge = c.idx % 1500 == 1499;
    // a few steps from a start beyond 2^16 nodes, edges or neighbors
    let vast = c.idx % 6000 == 1234;
    let start = if vast { let s = gen::huge(&mut r, c.idx as usize / 6000); gen::spec(&mut r, s, Opt { own: 0, ..Opt::default() }) } else if long { gen::spec(&mut r, gen::Shape { n: 0, edges: vec![], fam: "empty" }, Opt { own: 0, ..Opt::default() }) } else {
        let k = r.below(10);
        let s = if k < 3 { gen::Shape { n: 0, edges: vec![], fam: "empty" } } else { gen::shape(&mut r, if k < 8 { 8 } else { 20 }) };
        gen::spec(&mut r, s, Opt { own: 0, ..Opt::default() })
    };
    let mut m = start.model.clone();
    let pool_n = if let (false, Some(c)) = (vast || huge || long, gen::tuned(&mut r, 300)) { c } else if huge { *r.pick(&[1500, 4000]) } else if long { *r.pick(&[40, 150, 400]) } else { r.range(1, 12) };
    let (mut pool, scheme) = gen::labels(&mut r, pool_n);
    if !m.nodes.is_empty() { pool.extend(m.nodes.iter().cloned()); pool.sort(); pool.dedup(); r.shuffle(&mut pool); }
    let len = if let (false, Some(c)) = (vast || huge || long, gen::tuned(&mut r, 1000)) { c } else if vast { 6 } else if huge { r.range(4000, 9000) } else if long { r.range(200, 1500) } else if r.pct(10) { r.range(20, 120) } else { r.range(1, 20) };
    let nodes_pct = r.range(15, 60);
    let mut log: Vec<Op> = vec![];
    let mut key = start.key();
    let mut refused = 0;
    let res = (|| -> R {
        let from_dfs = !long && !vast && m.m() > 0 && r.pct(12);
        let mut g = start.graph()?;
        if from_dfs {
            // restart from the graph made of a traversal of it
            let root = *r.pick(&m.nodes);
            if !m.of(root).is_empty() {
                let steps = crate::oracle::dfs_ref(&m, root);
                let mut nm = Model::new();
                nm.add_node(root).unwrap();
                for &(a, b, cut) in &steps { if !cut { nm.add_node(b).unwrap(); } nm.add_edge(a, b).unwrap(); }
                let g2 = subj("try_from(DepthFirst)", || DefaultGraph::try_from(DepthFirst::new(&g, root).ok().expect("root is a node")))?;
                match g2 { Ok(x) => { g = x; m = nm; } Err(e) => return Err(Fail::v(format!("graph of a traversal: {:?}", e))) }
                c.count("histories_from_traversal", 1);
            }
        }
        let every = if huge { 611 } else if long { 37 } else { 1 };
        match what { What::Views => { let o = views(&g, &m, &mut r, 12)?; c.count("observations", o); } What::Orders => orders(&g, &m)?, What::Lookups => { let o = lookups(&g, &m, &mut r, 4)?; c.count("observations", o); } What::Trans => {} }
        for step in 0..len {
            let op = if r.pct(nodes_pct) { Op::Node(*r.pick(&pool)) }
                else if r.pct(15) && m.m() > 0 { let e = *r.pick(&m.edges); if r.pct(50) { Op::Edge(e.0, e.1) } else { Op::Edge(e.1, e.0) } }
                else if r.pct(70) && m.n() > 0 { Op::Edge(*r.pick(&m.nodes), *r.pick(&m.nodes)) }
                else { Op::Edge(*r.pick(&pool), *r.pick(&pool)) };
            log.push(op);
            match op { Op::Node(v) => key.add(1).add(v as u64), Op::Edge(a, b) => key.add(2).add(a as u64).add(b as u64) };
            let look = step % every == 0 || step + 1 == len;
            let before = if what == What::Trans && look { Some(snap(&g)?) } else { None };
            let pre = m.clone();
            let how = if (look || r.pct(20)) && r.pct(60) { Some(r.below(32)) } else { None };
            if let Some(h) = how { ask(&g, &m, op, h, what)?; c.count("operations_asked_about_before_and_after", 1); }
            let want = mapply(&mut m, op);
            let got = apply(&mut g, op)?;
            if let Some(h) = how { if got.is_ok() == want.is_ok() { ask(&g, &m, op, h, what)?; } }
            c.count("operations", 1);
            if want.is_err() { refused += 1; }
            if what == What::Trans || got.is_ok() != want.is_ok() {
                ensure!(got.is_ok() == want.is_ok(), "{:?} gave {:?}, expected {:?}", op, got, want);
                if let Err(e) = &got { ensure!(cause(op, e, &pre), "{:?} was refused with {:?}, expected {:?}", op, e, want); c.count("refusals_checked", 1); }
            }
            if !look { continue; }
            match what {
                What::Views => { let o = views(&g, &m, &mut r, 12)?; c.count("observations", o); }
                What::Orders => { orders(&g, &m)?; c.count("observations", 1); }
                What::Lookups => { let o = lookups(&g, &m, &mut r, 3)?; c.count("observations", o); }
                What::Trans => {
                    let after = snap(&g)?;
                    c.count("observations", 1);
                    if want.is_err() {
                        let b = before.unwrap();
                        ensure!(b == after, "refused {:?} changed the graph from {:?} to {:?}", op, b, after);
                        if m.n() <= 12 { views(&g, &m, &mut r, 12)?; }
                    } else {
                        // exactly the addition
                        views(&g, &m, &mut r, 12)?;
                        let _ = before;
                    }
                }
            }
        }
        Ok(())
    })();
    c.count("histories", 1);
    c.count("refused_operations", refused);
    c.max("longest_history", log.len() as u64);
    c.max("largest_graph", m.n() as u64);
    c.sample(|| format!("start {} pool {} then {:?}", start.show(), scheme, log));
    c.eval(if refused > 0 && m.m() > 0 { Some(key.get()) } else { None });
    res.map_err(|f| f.with(|| format!("start {}\noperations {:?}", start.show(), log)))
}

/// Just what an operation concerns, asked right before and right after it, in the same way.
fn ask<G: Graph>(g: &G, m: &Model, op: Op, how: usize, what: What) -> R {
    let (a, b) = match op { Op::Edge(a, b) => (a, b), Op::Node(v) => (v, v) };
    let (a, b) = if how & 1 == 0 { (a, b) } else { (b, a) };
    let both = m.has(a) && m.has(b);
    if how & 2 == 0 {
        let x = subj("has_edge", || g.has_edge(a, b))?;
        ensure!(x.is_ok() == both, "has_edge({},{}) gives {:?}", a, b, x);
        if let (Ok(x), What::Views | What::Trans) = (&x, what) { ensure!(*x == m.joined(a, b), "has_edge({},{}) gives {}", a, b, x); }
    }
    if how & 4 == 0 {
        let x = subj("neighbors", || g.neighbors(a).map(|i| i.collect::<Vec<_>>()))?;
        ensure!(x.is_ok() == m.has(a), "neighbors({}) gives {:?}", a, x);
        if let (Ok(x), What::Views | What::Trans | What::Orders) = (&x, what) { ensure!(x == m.of(a), "neighbors({}) gives {:?}, expected {:?}", a, x, m.of(a)); }
    }
    if how & 8 == 0 {
        let x = subj("degree", || g.degree(a))?;
        ensure!(x.is_ok() == m.has(a), "degree({}) gives {:?}", a, x);
        if let (Ok(x), What::Views | What::Trans) = (&x, what) { ensure!(*x == m.of(a).len(), "degree({}) gives {}, expected {}", a, x, m.of(a).len()); }
    }
    if how & 16 == 0 {
        let x = subj("has_node", || g.has_node(a))?;
        ensure!(x == m.has(a), "has_node({}) gives {}", a, x);
    }
    Ok(())
}

/// Graphs of the standard corpus, looked at once.
fn corpus(c: &mut Ctx, p: &Plan, idx: u64, what: What) -> R {
    let mut r = c.rng.clone();
    let (s, class) = p.shape(&mut r, idx);
    let sp = gen::spec(&mut r, s, Opt { own: 0, ..Opt::default() });
    debug_assert!(sp.model.sane());
    let res = (|| -> R {
        let g = sp.graph()?;
        match what {
            What::Orders => orders(&g, &sp.model)?,
            What::Lookups => { let o = lookups(&g, &sp.model, &mut r, 8)?; c.count("observations", o); }
            _ => { let o = views(&g, &sp.model, &mut r, 24)?; c.count("observations", o); }
        }
        Ok(())
    })();
    c.count(match class { "huge" => "huge_graphs", "big" => "big_graphs", "random" => "random_graphs", _ => "exhaustive_small_graphs" }, 1);
    c.max("largest_graph", sp.model.n() as u64);
    c.sample(|| sp.show());
    c.eval(if sp.model.m() > 0 { Some(sp.key().get()) } else { None });
    res.map_err(|f| f.with(|| sp.show()))
}

pub fn plan(t: bool) -> Plan { if t { Plan { huge: 12, small_n: 6, small_reps: 4, random: 60_000, big_reps: 8, big_scale: 100, top: 300 } } else { Plan { huge: 6, small_n: 5, small_reps: 4, random: 16_000, big_reps: 3, big_scale: 60, top: 300 } } }
fn hist_n(t: bool) -> u64 { if t { 600_000 } else { 48_000 } }

pub fn len_hist(t: bool) -> u64 { plan(t).len() + hist_n(t) }
pub fn c01(c: &mut Ctx) -> R { let p = plan(c.thorough()); if c.idx < p.len() { let i = c.idx; corpus(c, &p, i, What::Views) } else { history(c, What::Views) } }
pub fn len02(t: bool) -> u64 { hist_n(t) * 3 / 2 }
pub fn c02(c: &mut Ctx) -> R { history(c, What::Trans) }
pub fn c03(c: &mut Ctx) -> R { let p = plan(c.thorough()); if c.idx < p.len() { let i = c.idx; corpus(c, &p, i, What::Orders) } else { history(c, What::Orders) } }
pub fn c04(c: &mut Ctx) -> R { let p = plan(c.thorough()); if c.idx < p.len() { let i = c.idx; corpus(c, &p, i, What::Lookups) } else { history(c, What::Lookups) } }

// ---------------------------------------------------------------- C05

/// The faults of an adjacency list: (missing nodes, duplicates, unmutual listings as (t, s)).
fn faults(adj: &[Vec<usize>]) -> (BTreeSet<usize>, BTreeSet<(usize, usize)>, BTreeSet<(usize, usize)>) {
    let (mut a, mut b, mut c) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for (i, row) in adj.iter().enumerate() {
        let mut seen = BTreeSet::new();
        for &j in row {
            if j >= adj.len() { a.insert(j); }
            else if !adj[j].contains(&i) { c.insert((j, i)); }
            if !seen.insert(j) { b.insert((i, j)); }
        }
    }
    (a, b, c)
}

fn adj_case(c: &mut Ctx, adj: &Vec<Vec<usize>>, r: &mut Rng) -> R {
    let (miss, dup, un) = faults(adj);
    let valid = miss.is_empty() && dup.is_empty() && un.is_empty();
    let a = adj.clone();
    let got = subj("try_from(adjacency)", || DefaultGraph::try_from(a))?;
    match got {
        Ok(g) => {
            ensure!(valid, "invalid adjacency list accepted: missing {:?} duplicate {:?} unmutual {:?}", miss, dup, un);
            let m = Model::from_adj(adj);
            views(&g, &m, r, 12)?;
            c.count("accepted", 1);
        }
        Err(e) => {
            let ok = match &e {
                Error::MissingNode(x) => miss.contains(x),
                Error::DuplicateEdge(a, b) => dup.contains(&(*a, *b)),
                Error::MissingEdge(a, b) => un.contains(&(*a, *b)),
                _ => false,
            };
            ensure!(ok, "{} list refused with {:?}; faults: missing {:?} duplicate {:?} unmutual {:?}", if valid { "valid" } else { "invalid" }, e, miss, dup, un);
            c.count(match e { Error::MissingNode(_) => "refused_missing_node", Error::DuplicateEdge(..) => "refused_duplicate", _ => "refused_unmutual" }, 1);
        }
    }
    Ok(())
}
fn adj_key(adj: &[Vec<usize>]) -> u64 { let mut k = Key::new(); for r in adj { k.add(r.len() as u64 + 1_000_003); for &x in r { k.add(x as u64); } } k.get() }

/// All rows of at most `l` entries over 0..=v.
fn rows(l: usize, v: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..l {
        let mut next = vec![];
        for x in &last { for y in 0..=v { let mut z: Vec<usize> = x.clone(); z.push(y); next.push(z); } }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
const CHUNK: u64 = 64;
pub fn len05(t: bool) -> u64 { 9261 / CHUNK + 1 + if t { 1_500_000 } else { 150_000 } }
pub fn c05(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let ex = 9261 / CHUNK + 1;
    if c.idx < ex {
        // every list of three rows of at most two entries over {0,1,2,3}; and of up to two rows
        let rs = rows(2, 3);
        for i in c.idx * CHUNK..((c.idx + 1) * CHUNK).min(9261) {
            let mut k = i as usize;
            let mut adj: Vec<Vec<usize>> = vec![];
            for _ in 0..3 { adj.push(rs[k % rs.len()].clone()); k /= rs.len(); }
            for n in if i % 21 == 0 { 0..=3 } else { 3..=3 } {
                let a = adj[..n].to_vec();
                adj_case(c, &a, &mut r).map_err(|f| f.with(|| format!("adjacency {:?}", a)))?;
                c.eval(Some(adj_key(&a)));
                c.count("exhaustive_lists", 1);
            }
        }
        c.sample(|| format!("all lists of three rows over {:?}...", &rs[..5]));
        return Ok(());
    }
    let max = if c.idx % 400 == 399 { 250 } else { gen::size(&mut r, 40) };
    let s = if c.idx % 20_000 == 12_345 { gen::huge(&mut r, c.idx as usize / 20_000) } else if c.idx % 1500 == 1499 { let k = r.below(gen::BIG); gen::big(&mut r, k, 70) } else { gen::shape(&mut r, max) };
    let n = s.n;
    let mut adj = vec![vec![]; n];
    for &(a, b) in &s.edges { adj[a].push(b); adj[b].push(a); }
    if r.pct(20) { let k = r.range(1, n.min(3)); for _ in 0..k { let v = r.below(n); if !adj[v].contains(&v) { adj[v].push(v); } } }
    for row in adj.iter_mut() { gen::arrange(&mut r, row); }
    let k = *r.pick(&[0, 0, 1, 1, 1, 2, 3]);
    for _ in 0..k {
        let i = r.below(n);
        match r.below(8) {
            6 => if n > 2 { // a ring of one-way listings: every row gives and gets as many
                let len = r.range(3, n.min(6));
                let mut at: Vec<usize> = vec![];
                while at.len() < len { let v = r.below(n); if !at.contains(&v) { at.push(v); } }
                if (0..len).all(|i| !adj[at[i]].contains(&at[(i + 1) % len]) && !adj[at[(i + 1) % len]].contains(&at[i])) {
                    for i in 0..len { let (v, w) = (at[i], at[(i + 1) % len]); let p = r.range(0, adj[v].len()); adj[v].insert(p, w); }
                }
            },
            7 => if n > 3 { // two rows exchange entries, whose own rows stay
                for _ in 0..10 {
                    let j = r.below(n);
                    if i == j || adj[i].is_empty() || adj[j].is_empty() { continue; }
                    let (p, q) = (r.below(adj[i].len()), r.below(adj[j].len()));
                    let (b, d) = (adj[i][p], adj[j][q]);
                    if adj[i].contains(&d) || adj[j].contains(&b) { continue; }
                    adj[i][p] = d;
                    adj[j][q] = b;
                    break;
                }
            },
            0 => { let x = match r.below(4) { 0 => n, 1 => n + 1, 2 => usize::MAX, _ => n + r.below(50) }; let p = r.range(0, adj[i].len()); adj[i].insert(p, x); }
            1 => if !adj[i].is_empty() { let x = *r.pick(&adj[i]); let p = r.range(0, adj[i].len()); adj[i].insert(p, x); },
            2 => if !adj[i].is_empty() { let p = r.below(adj[i].len()); adj[i].remove(p); },
            3 => { let x = r.below(n); if !adj[i].contains(&x) { let p = r.range(0, adj[i].len()); adj[i].insert(p, x); } }
            4 => if !adj[i].is_empty() { let p = r.below(adj[i].len()); adj[i][p] = r.below(n); },
            _ => { let j = r.below(n); adj.swap(i, j); }
        }
    }
    c.max("largest_list", n as u64);
    c.sample(|| format!("adjacency {:?}", adj));
    let key = adj_key(&adj);
    let res = adj_case(c, &adj, &mut r).map_err(|f| f.with(|| format!("adjacency {:?}", adj)));
    c.eval(if adj.iter().any(|r| !r.is_empty()) { Some(key) } else { None });
    res
}

// ---------------------------------------------------------------- C06

fn edges_case(c: &mut Ctx, es: &Vec<(usize, usize)>, r: &mut Rng) -> R {
    let mut seen = BTreeSet::new();
    let mut rep = vec![];
    for &e in es { if !seen.insert(norm(e)) { rep.push(e); } }
    let a = es.clone();
    let got = subj("try_from(edges)", || DefaultGraph::try_from(a))?;
    match got {
        Ok(g) => {
            ensure!(rep.is_empty(), "edge list accepted although it repeats {:?}", rep);
            let m = Model::from_edges(es);
            views(&g, &m, r, 12)?;
            let h = subj("building one by one", || {
                let mut h = DefaultGraph::new();
                for &v in &m.nodes { if let Err(e) = h.add_node(v) { return Err(Fail::v(format!("add_node({}): {:?}", v, e))); } }
                for &(a, b) in &m.edges { if let Err(e) = h.add_edge(a, b) { return Err(Fail::v(format!("add_edge({},{}): {:?}", a, b, e))); } }
                Ok(h)
            })??;
            let (x, y) = subj("==", || (g == h, h == g))?;
            ensure!(x && y, "graph of the list and graph built one by one compare {} and {}", x, y);
            c.count("accepted", 1);
        }
        Err(e) => {
            let ok = matches!(&e, Error::DuplicateEdge(a, b) if rep.contains(&(*a, *b)));
            ensure!(ok, "list refused with {:?}, repetitions {:?}", e, rep);
            c.count("refused", 1);
        }
    }
    Ok(())
}
fn edges_key(es: &[(usize, usize)]) -> u64 { let mut k = Key::new(); for e in es { k.add(e.0 as u64).add(e.1 as u64); } k.get() }
pub fn len06(t: bool) -> u64 { 6561 / CHUNK + 1 + if t { 1_500_000 } else { 120_000 } }
pub fn c06(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let ex = 6561 / CHUNK + 1;
    if c.idx < ex {
        for i in c.idx * CHUNK..((c.idx + 1) * CHUNK).min(6561) {
            let mut k = i as usize;
            let all: Vec<(usize, usize)> = (0..4).map(|_| { let x = k % 9; k /= 9; (x / 3, x % 3) }).collect();
            for n in if i % 27 == 0 { 0..=4 } else { 4..=4 } {
                let es = all[..n].to_vec();
                edges_case(c, &es, &mut r).map_err(|f| f.with(|| format!("edges {:?}", es)))?;
                c.eval(Some(edges_key(&es)));
                c.count("exhaustive_lists", 1);
            }
        }
        c.sample(|| "all lists of four edges over three ids".into());
        return Ok(());
    }
    let k = if c.idx % 300 == 299 { 1500 } else { gen::size(&mut r, 80) };
    let s = if c.idx % 20_000 == 12_345 { gen::huge(&mut r, c.idx as usize / 20_000) } else if c.idx % 1500 == 1499 { let k = r.below(gen::BIG); gen::big(&mut r, k, 80) } else if k == 1500 { gen::gnm(&mut r, 500, 1500) } else { gen::shape(&mut r, k) };
    let (l, names) = gen::labels(&mut r, s.n);
    let mut es: Vec<(usize, usize)> = s.edges.iter().map(|&(a, b)| if r.pct(50) { (l[a], l[b]) } else { (l[b], l[a]) }).collect();
    if r.pct(15) { let v = l[r.below(s.n)]; es.push((v, v)); }
    gen::arrange(&mut r, &mut es);
    if !es.is_empty() && r.pct(55) {
        for _ in 0..r.range(1, 3) {
            let e = *r.pick(&es);
            let e = if r.pct(50) { e } else { (e.1, e.0) };
            let p = if r.pct(60) { es.len() } else { r.range(0, es.len()) };
            es.insert(p, e);
        }
    }
    c.max("longest_list", es.len() as u64);
    c.sample(|| format!("names {} edges {:?}", names, es));
    let key = edges_key(&es);
    let res = edges_case(c, &es, &mut r).map_err(|f| f.with(|| format!("edges {:?}", es)));
    c.eval(if es.len() > 1 { Some(key) } else { None });
    res
}

// ---------------------------------------------------------------- C07

/// Same graph by another route: other node, edge and neighbor order, other directions.
pub fn rebuild(r: &mut Rng, m: &Model) -> R<DefaultGraph> {
    let n = m.n();
    let rows = (0..n).all(|i| m.has(i));
    if rows && r.pct(30) {
        let mut adj: Vec<Vec<usize>> = (0..n).map(|i| m.of(i).to_vec()).collect();
        for row in adj.iter_mut() { r.shuffle(row); }
        return gen::build(&Build::Adj(adj));
    }
    let mut nodes = m.nodes.clone();
    let mut edges = m.edges.clone();
    r.shuffle(&mut nodes);
    r.shuffle(&mut edges);
    for e in edges.iter_mut() { if r.pct(50) { *e = (e.1, e.0); } }
    if m.nbr.iter().all(|x| !x.is_empty()) && r.pct(30) { return gen::build(&Build::Edges(edges)); }
    let mut ops: Vec<Op> = nodes.into_iter().map(Op::Node).collect();
    ops.extend(edges.into_iter().map(|(a, b)| Op::Edge(a, b)));
    gen::build(&Build::Ops(ops))
}
/// A near miss: a graph that differs in as little as possible, keeping counts if it can.
fn near(r: &mut Rng, m: &Model) -> Model {
    let mut nodes = m.nodes.clone();
    let mut edges: Vec<(usize, usize)> = m.edges.clone();
    let free = |r: &mut Rng, nodes: &[usize], edges: &[(usize, usize)]| -> Option<(usize, usize)> {
        if nodes.is_empty() { return None; }
        for _ in 0..30 { let (a, b) = (*r.pick(nodes), *r.pick(nodes)); if (a != b || r.pct(20)) && !edges.iter().any(|&e| norm(e) == norm((a, b))) { return Some((a, b)); } }
        None
    };
    for _ in 0..r.range(1, 2) {
        match r.below(9) {
            7 | 8 => if edges.len() > 1 { // two edges exchange ends: every degree stays
                for _ in 0..10 {
                    let (i, j) = (r.below(edges.len()), r.below(edges.len()));
                    let ((a, b), (c, d)) = (edges[i], if r.pct(50) { edges[j] } else { (edges[j].1, edges[j].0) });
                    let (e, f) = ((a, d), (c, b));
                    if i == j || norm(e) == norm(f) || edges.iter().any(|&x| norm(x) == norm(e) || norm(x) == norm(f)) { continue; }
                    edges[i] = e;
                    edges[j] = f;
                    break;
                }
            },
            0 => if let Some(e) = free(r, &nodes, &edges) { edges.push(e); },
            1 => if !edges.is_empty() { let p = r.below(edges.len()); edges.remove(p); },
            2 | 3 => if !edges.is_empty() { if let Some(e) = free(r, &nodes, &edges) { let p = r.below(edges.len()); edges[p] = e; } },
            4 => if !nodes.is_empty() { // rename a node
                let p = r.below(nodes.len()); let old = nodes[p]; let mut x = if r.pct(50) { nodes.len() } else { old.wrapping_add(1) };
                while nodes.contains(&x) { x = x.wrapping_add(1); }
                nodes[p] = x;
                for e in edges.iter_mut() { if e.0 == old { e.0 = x; } if e.1 == old { e.1 = x; } }
            },
            5 => if !nodes.is_empty() { // move an end of an edge
                if !edges.is_empty() { let p = r.below(edges.len()); let e = (edges[p].0, *r.pick(&nodes)); if !edges.iter().any(|&f| norm(f) == norm(e)) { edges[p] = e; } }
            },
            _ => { let mut x = r.below(nodes.len() + 3); while nodes.contains(&x) { x += 1; } nodes.push(x);
                   if r.pct(40) && nodes.len() > 1 { let used: BTreeSet<usize> = edges.iter().flat_map(|e| [e.0, e.1]).collect(); let iso: Vec<usize> = (0..nodes.len() - 1).filter(|&i| !used.contains(&nodes[i])).collect(); if !iso.is_empty() { let p = *r.pick(&iso); nodes.remove(p); } } }
        }
    }
    let mut out = Model::new();
    for v in nodes { let _ = out.add_node(v); }
    for (a, b) in edges { let _ = out.add_edge(a, b); }
    out
}
/// Two graphs that agree in every degree and, row by row, in the sums of low powers (and exclusive or) of
/// the neighbors, but not in their edges: two sides split by the Thue-Morse sequence, joined straight or crosswise.
fn alike(r: &mut Rng, on: &Model) -> (Model, Model) {
    let k = 1usize << r.range(1, 3);
    let base = match r.below(4) { 0 => 0, 1 => r.below(100) * 16, 2 => (r.u64() as usize >> 8) & !63, _ => usize::MAX - 4095 };
    let step = *r.pick(&[1, 1, 1, 2, 16, 32]);
    let id = |side: usize, i: usize| base + step * (side * 2 * k + i);
    let (mut a, mut b) = (on.clone(), on.clone());
    let mut order: Vec<usize> = (0..4 * k).collect();
    for m in [&mut a, &mut b] {
        r.shuffle(&mut order);
        for &x in &order { let _ = m.add_node(id(x / (2 * k), x % (2 * k))); }
    }
    let mut pairs: Vec<(usize, usize)> = (0..2 * k).flat_map(|i| (0..2 * k).map(move |j| (i, j))).collect();
    r.shuffle(&mut pairs);
    // only nodes that met no others before keep the likeness, but unlike they are in any case
    for (i, j) in pairs {
        let e = if r.pct(50) { (id(0, i), id(1, j)) } else { (id(1, j), id(0, i)) };
        let same = (i.count_ones() + j.count_ones()) % 2 == 0;
        let _ = if same { a.add_edge(e.0, e.1) } else { b.add_edge(e.0, e.1) };
    }
    (a, b)
}
fn eq_case(c: &mut Ctx, a: &DefaultGraph, b: &DefaultGraph, ma: &Model, mb: &Model) -> R {
    let want = ma.node_set() == mb.node_set() && ma.eset == mb.eset;
    let (x, y, z, w) = subj("==", || (a == b, b == a, a != b, b != a))?;
    ensure!(x == want && y == want && z == !want && w == !want, "graphs that {} compare == {} / {} (swapped) and != {} / {}", if want { "are the same" } else { "differ" }, x, y, z, w);
    c.count(if want { "equal_pairs" } else if ma.n() == mb.n() && ma.m() == mb.m() { "unequal_pairs_same_counts" } else { "unequal_pairs" }, 1);
    Ok(())
}
/// All graphs whose nodes are a subset of four ids, with loops on small ones.
fn subset_graphs() -> Vec<Model> {
    let mut out = vec![];
    for s in 0..16usize {
        let ids: Vec<usize> = (0..4).filter(|i| s >> i & 1 == 1).collect();
        let mut pairs = vec![];
        for (i, &a) in ids.iter().enumerate() { for &b in &ids[i..] { if a != b || ids.len() <= 2 { pairs.push((a, b)); } } }
        for e in 0..1usize << pairs.len() {
            let mut m = Model::new();
            for &v in &ids { m.add_node(v).unwrap(); }
            for (k, &(a, b)) in pairs.iter().enumerate() { if e >> k & 1 == 1 { m.add_edge(a, b).unwrap(); } }
            out.push(m);
        }
    }
    out
}
pub fn len07(t: bool) -> u64 { 160 + if t { 800_000 } else { 90_000 } }
pub fn c07(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    if c.idx < 160 {
        let all = subset_graphs();
        if c.idx as usize >= all.len() { return Ok(()); }
        let ma = &all[c.idx as usize];
        let a = rebuild(&mut r, ma)?;
        for mb in &all {
            let b = rebuild(&mut r, mb)?;
            eq_case(c, &a, &b, ma, mb).map_err(|f| f.with(|| format!("a: {}\nb: {}", ma.show(), mb.show())))?;
            let mut k = Key::new();
            for m in [ma, mb] { for v in &m.nodes { k.add(*v as u64); } k.add(99); for e in &m.eset { k.add(e.0 as u64).add(e.1 as u64); } k.add(77); }
            c.eval(Some(k.get()));
            c.count("exhaustive_pairs", 1);
        }
        c.sample(|| format!("{} against all {} graphs over subsets of four ids", ma.show(), all.len()));
        return Ok(());
    }
    let k = if c.idx % 300 == 299 { 400 } else { gen::size(&mut r, 40) };
    let s = if c.idx % 20_000 == 12_345 { gen::huge(&mut r, c.idx as usize / 20_000) } else if c.idx % 1500 == 1499 { let k = r.below(gen::BIG); gen::big(&mut r, k, 50) } else if k == 400 { gen::gnm(&mut r, 400, 700) } else { gen::shape(&mut r, k) };
    let sp = gen::spec(&mut r, s, Opt { own: 0, ..Opt::default() });
    let ma = &sp.model;
    let mb = near(&mut r, ma);
    let mut key = sp.key();
    for e in &mb.eset { key.add(e.0 as u64).add(e.1 as u64); }
    if r.pct(5) {
        let none = Model::new();
        let (x, y) = { let on = if r.pct(50) || ma.n() > 300 { &none } else { ma }; alike(&mut r, on) };
        let (g, h, g2) = (rebuild(&mut r, &x)?, rebuild(&mut r, &y)?, rebuild(&mut r, &x)?);
        (|| { eq_case(c, &g, &h, &x, &y)?; eq_case(c, &g, &g2, &x, &x) })().map_err(|f| f.with(|| format!("a: {}\nb: {}", x.show(), y.show())))?;
        c.count("pairs_alike_in_all_sums", 1);
    }
    let res = (|| -> R {
        let a = sp.graph()?;
        let a2 = rebuild(&mut r, ma)?;
        let a3 = rebuild(&mut r, ma)?;
        let b = rebuild(&mut r, &mb)?;
        eq_case(c, &a, &a, ma, ma)?;
        eq_case(c, &a, &a2, ma, ma)?;
        eq_case(c, &a2, &a3, ma, ma)?;
        eq_case(c, &a, &b, ma, &mb)?;
        eq_case(c, &a2, &b, ma, &mb)?;
        let m2 = near(&mut r, &mb);
        let b2 = rebuild(&mut r, &m2)?;
        eq_case(c, &b, &b2, &mb, &m2)?;
        eq_case(c, &a, &b2, ma, &m2)
    })();
    c.sample(|| format!("a: {}\nb: {}", ma.show(), mb.show()));
    c.max("largest_graph", ma.n() as u64);
    c.eval(if ma.m() > 0 { Some(key.get()) } else { None });
    res.map_err(|f| f.with(|| format!("a: {}\nb: {}", sp.show(), mb.show())))
}

/// Used by other modules: a graph as a whole against a model, all queries and all orders.
pub fn faithful<G: Graph>(g: &G, m: &Model, r: &mut Rng) -> R { views(g, m, r, 12)?; Ok(()) }
#[allow(dead_code)]
pub fn try_quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> { quietly(f) }
pub fn describe(s: &Spec) -> String { s.show() }
