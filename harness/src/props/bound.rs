//! C23: every operation on valid input returns, with bounded queries, stack, work and memory.
use crate::cov;
use crate::ctx::{self, subj, Ctx, Fail, R};
use crate::gen::{self, Opt, Plan, Shape, Spec};
use crate::model::{dist, Model};
use crate::own::{Calls, Probe};
use crate::props::matching::{oracle, pairing, start};
use crate::props::trav::cap;
use crate::rng::{Key, Rng};
use gamma::graph::{DefaultGraph, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst};
use std::convert::TryFrom;

/// Queries a traversal, component enumeration or greedy matching may make: a constant per node and edge.
fn linear(n: usize, m: usize) -> u64 { 16 * (n + m) as u64 + 64 }
/// Queries a maximum matching may make: a polynomial far above what one search per pair needs.
fn poly(n: usize, m: usize) -> u64 { let s = (n + 4) as u64; 2 * s * s * (n + m + 4) as u64 }
/// Code regions a maximum matching may execute.
fn work(n: usize, m: usize) -> u64 { let s = (n + m + 8) as u64; 60 * s * s * s * s }

fn within(c: Calls, max: u64, what: &str, n: usize, m: usize) -> R {
    ensure!(c.total() <= max, "{} of a graph with n={} m={} made {} queries ({:?}), more than {}", what, n, m, c.total(), c, max);
    Ok(())
}

fn queries<G: Graph>(c: &mut Ctx, g: &G, sp: &Spec, r: &mut Rng, matching: bool, alone: bool) -> R {
    let m = &sp.model;
    let (n, e) = (m.n(), m.m());
    let adj = m.adj_idx();
    let roots: Vec<usize> = if n == 0 { vec![] } else if n <= 5 { m.nodes.clone() } else { vec![m.nodes[0], *r.pick(&m.nodes), *m.nodes.last().unwrap()] };
    let mut tot = Calls::default();
    for &root in &roots {
        let inside: Vec<bool> = dist(&adj, m.idx[&root]).iter().map(|d| d.is_some()).collect();
        let cn = inside.iter().filter(|&&x| x).count();
        let ce = m.edges.iter().filter(|x| inside[m.idx[&x.0]]).count();
        for kind in 0..4 {
            let p = Probe::upto(g, 2 * linear(n, e));
            let name = ["depth-first traversal", "breadth-first traversal", "into_table", "try_from(traversal)"][kind];
            let k = subj(name, || match kind {
                0 => DepthFirst::new(&p, root).ok().expect("root").take(cap(m)).count(),
                1 => BreadthFirst::new(&p, root).ok().expect("root").take(cap(m)).count(),
                2 => DepthFirst::new(&p, root).ok().expect("root").into_table().1.len(),
                _ => if m.of(root).is_empty() { 0 } else { DefaultGraph::try_from(DepthFirst::new(&p, root).ok().expect("root")).map(|h| h.size()).unwrap_or(0) },
            })?;
            ensure!(k < cap(m), "{} from {} does not end", name, root);
            within(p.c.get(), linear(cn, ce), name, cn, ce)?;
            c.max("traversal_queries_per_100_nodes_and_edges", p.c.get().total() * 100 / (cn + ce + 1) as u64);
            tot = add(tot, p.c.get());
        }
    }
    let p = Probe::upto(g, 2 * linear(n, e));
    let k = subj("components", || components(&p).take(n + 8).count())?;
    ensure!(k < n + 8, "component enumeration does not end");
    within(p.c.get(), linear(n, e), "component enumeration", n, e)?;
    tot = add(tot, p.c.get());
    let p = Probe::upto(g, 2 * linear(n, e));
    subj("greedy", || greedy(&p))?;
    within(p.c.get(), linear(n, e), "greedy matching", n, e)?;
    tot = add(tot, p.c.get());
    if matching {
        let o = oracle(m);
        for kind in [0, *r.pick(&[1, 2, 3, 4, 5, 7, 7])] {
            let (init, _) = start(r, m, &o, kind);
            let mut x = pairing(r, &init)?;
            let p = Probe::upto(g, 2 * poly(n, e));
            let w0 = cov::regions();
            subj("maximum_matching", || maximum_matching(&p, &mut x))?;
            let w = cov::regions().wrapping_sub(w0);
            within(p.c.get(), poly(n, e), "maximum matching", n, e)?;
            ensure!(!alone || w <= work(n, e), "maximum matching of a graph with n={} m={} executed {} code regions, more than {}", n, e, w, work(n, e));
            c.max("matching_queries_per_mille_of_bound", p.c.get().total() * 1000 / poly(n, e));
            if alone { c.max("matching_regions_per_mille_of_bound", w * 1000 / work(n, e)); }
            c.count("matchings_run", 1);
            tot = add(tot, p.c.get());
        }
    }
    c.count("neighbors_queries_observed", tot.neighbors);
    c.count("edges_queries_observed", tot.edges);
    c.count("has_edge_queries_observed", tot.has_edge);
    c.count("has_node_queries_observed", tot.has_node);
    c.count("other_queries_observed", tot.nodes + tot.other);
    Ok(())
}
fn add(a: Calls, b: Calls) -> Calls { Calls { nodes: a.nodes + b.nodes, neighbors: a.neighbors + b.neighbors, edges: a.edges + b.edges, has_node: a.has_node + b.has_node, has_edge: a.has_edge + b.has_edge, other: a.other + b.other, missing: a.missing + b.missing } }

/// Runs `f` on a thread with a stack of `kb` kilobytes. Running out of it ends the process by a signal
/// in subject code, which the supervisor reports.
fn on_stack<T>(kb: usize, f: impl FnOnce() -> T) -> R<T> {
    /// The thread is alone while it runs; whether the types may be shared is not decided here (see C22).
    struct Carry<T>(T);
    unsafe impl<T> Send for Carry<T> {}
    impl<T> Carry<T> { fn out(self) -> T { self.0 } }
    let d = ctx::slot(1);
    d.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let f = Carry(f);
    let r = std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(kb << 10).spawn_scoped(s, || { let f = f; Carry(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f.out())).map_err(|_| ctx::last_panic())) }).expect("thread");
        h.join().map(|c| c.out())
    });
    d.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    match r { Ok(Ok(v)) => Ok(v), Ok(Err(m)) => Err(Fail::v(format!("on a stack of {} KB: panicked: {}", kb, m))), Err(_) => Err(Fail::v("thread failed".into())) }
}
pub const STACK_KB: usize = 128;

const PAINT: u8 = 0xA5;
#[inline(never)]
fn paint(bytes: usize) { let x = 0u8; let top = std::hint::black_box(&x) as *const u8 as usize - 1024; unsafe { std::ptr::write_bytes((top - bytes) as *mut u8, PAINT, bytes) } }
/// How much of the stack `f` uses: the stack below is painted first, and looked at afterwards.
#[inline(never)]
fn painted<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let x = 0u8;
    let top = std::hint::black_box(&x) as *const u8 as usize;
    let bytes = 3 * (STACK_KB << 10) / 2;
    paint(bytes);
    let v = f();
    // the lowest painted byte lies within 64 KB above this
    let (mut a, end) = (top - bytes, top - 64);
    unsafe { while a < end && std::ptr::read_volatile(a as *const u8) == PAINT { a += 1; } }
    (v, top - a)
}

const KINDS: [&str; 12] = ["depth-first traversal", "breadth-first traversal", "a traversal's table", "component enumeration", "greedy matching", "a graph made of a traversal",
    "adding nodes and edges one by one", "a graph made of an edge list", "a graph made of an adjacency list", "comparing graphs", "pairing and augmenting", "comparing pairings"];
/// Bytes of stack each operation uses. On a stack of its own each time.
fn depths<G: Graph>(g: &G, m: &Model, root: usize, lists: bool) -> R<[usize; 12]> {
    let lim = cap(m);
    let build = |m: &Model| { let mut h = DefaultGraph::new(); for &v in &m.nodes { let _ = h.add_node(v); } for &(a, b) in &m.edges { let _ = h.add_edge(a, b); } h };
    let rows: Vec<Vec<usize>> = m.adj_idx();
    let (h1, h2) = if lists { (build(m), build(m)) } else { (DefaultGraph::new(), DefaultGraph::new()) };
    let path: Vec<usize> = m.nodes[..m.n() & !1].to_vec();
    let fill = || { let mut p = Pairing::new(); for x in path.windows(2).step_by(2) { p.pair(x[1], x[0]); } p };
    let (p1, p2) = (fill(), fill());
    let mut d = [0; 12];
    for (i, d) in d.iter_mut().enumerate() {
        if !lists && (6..10).contains(&i) { continue; }
        *d = on_stack(2 * STACK_KB, || painted(|| match i {
            0 => { let _ = DepthFirst::new(g, root).map(|i| i.take(lim).count()); }
            1 => { let _ = BreadthFirst::new(g, root).map(|i| i.take(lim).count()); }
            2 => { let _ = DepthFirst::new(g, root).map(|i| i.into_table()); }
            3 => { components(g).take(lim).count(); }
            4 => { greedy(g); }
            5 => { let _ = DepthFirst::new(g, root).map(|i| DefaultGraph::try_from(i).is_ok()); }
            6 => { build(m); }
            7 => { let _ = DefaultGraph::try_from(m.edges.clone()); }
            8 => { let _ = DefaultGraph::try_from(rows.clone()); }
            9 => { std::hint::black_box(h1 == h2); }
            10 => { let mut p = fill(); p.augment(path.clone()); std::hint::black_box(p.edges().count()); }
            _ => { std::hint::black_box(p1 == p2); }
        }).1)?;
    }
    Ok(d)
}
fn small_stack<G: Graph>(c: &mut Ctx, g: &G, m: &Model, root: usize, lists: bool) -> R {
    let lim = cap(m);
    let few = few_pairs();
    let fg = crate::own::Own(few.clone());
    let (a, b, t, k, p) = on_stack(STACK_KB, || {
        let a = DepthFirst::new(g, root).ok().map(|i| i.take(lim).count());
        let b = BreadthFirst::new(g, root).ok().map(|i| i.take(lim).count());
        let t = DepthFirst::new(g, root).ok().map(|i| i.into_table().0.len());
        let k = components(g).take(m.n() + 8).count();
        let p = greedy(g).order();
        (a, b, t, k, p)
    })?;
    let (d, d0) = (depths(g, m, root, lists)?, depths(&fg, &few, 0, lists)?);
    for i in 0..KINDS.len() {
        c.max("stack_bytes_of_large_graphs", d[i] as u64);
        c.max("stack_bytes_of_small_graphs", d0[i] as u64);
        ensure!(d[i] <= 2 * d0[i] + 8192, "{} of a graph with n={} m={} used {} bytes of stack, that of a graph with 8 nodes {}", KINDS[i], m.n(), m.m(), d[i], d0[i]);
    }
    ensure!(a.is_some() && b.is_some() && t.is_some(), "root {} refused", root);
    ensure!(a < Some(lim) && b < Some(lim) && k < m.n() + 8, "an enumeration does not end");
    c.count("small_stack_runs", 1);
    c.count("steps_on_small_stack", a.unwrap_or(0) as u64 + b.unwrap_or(0) as u64);
    c.count("components_on_small_stack", k as u64);
    c.count("greedy_nodes_on_small_stack", p as u64);
    Ok(())
}

/// Shapes whose maximum matching needs many augmentations, but no odd cycle.
fn many_pairs(r: &mut Rng, k: usize, t: bool) -> Shape {
    let f = if t { 2 } else { 1 };
    match k % 5 {
        0 => { let n = 900 * f; Shape { n: 2 * n, edges: (0..n).map(|i| (2 * i, 2 * i + 1)).collect(), fam: "pairs" } }
        1 => { let n = 250 * f; Shape { n: 4 * n, edges: (0..n).flat_map(|i| [(4 * i, 4 * i + 1), (4 * i + 1, 4 * i + 2), (4 * i + 2, 4 * i + 3)]).collect(), fam: "paths-of-four" } }
        2 => { let n = 300 * f; Shape { n, edges: (1..n).map(|i| (i - 1, i)).collect(), fam: "path" } }
        3 => { let n = 1200 * f; Shape { n, edges: (1..n).map(|i| (i - 1, i)).collect(), fam: "long-path" } }
        _ => { let n = 200 * f; let mut e: Vec<(usize, usize)> = (1..n).map(|i| (r.below(i), i)).collect(); e.dedup(); Shape { n, edges: e, fam: "tree" } }
    }
}

/// The nodes of a path graph from end to end.
fn walk(m: &Model) -> Vec<usize> {
    let mut at = *m.nodes.iter().find(|&&v| m.of(v).len() == 1).expect("end of the path");
    let mut w = vec![at];
    while let Some(&x) = m.of(at).iter().find(|&&x| w.len() < 2 || x != w[w.len() - 2]) { w.push(x); at = x; }
    w
}
/// Four pairs, to compare the use of stack with.
fn few_pairs() -> Model {
    let mut m = Model::new();
    for i in 0..8 { m.add_node(i).unwrap(); }
    for i in 0..4 { m.add_edge(2 * i, 2 * i + 1).unwrap(); }
    m
}

pub struct Sizes { pub corpus: Plan, pub stack: u64, pub pairs: u64 }
pub fn sizes(t: bool) -> Sizes {
    if t { Sizes { corpus: Plan { huge: 3000, small_n: 6, small_reps: 3, random: 250_000, big_reps: 6, big_scale: 6, top: 80 }, stack: 30, pairs: 15 } }
    else { Sizes { corpus: Plan { huge: 600, small_n: 5, small_reps: 5, random: 60_000, big_reps: 1, big_scale: 6, top: 80 }, stack: 2, pairs: 5 } }
}
pub fn len(t: bool) -> u64 { let s = sizes(t); s.corpus.len() + s.stack * gen::BIG as u64 + s.pairs }
/// The small-stack cases alone, for a build without optimisation (which keeps every recursion).
pub fn len_stack(t: bool) -> u64 { let s = sizes(t); s.stack * gen::BIG as u64 + s.pairs }
pub fn c23(c: &mut Ctx) -> R {
    let s = sizes(c.thorough());
    let mut r = c.rng.clone();
    let stacked = s.stack * gen::BIG as u64;
    // the slow ones first
    if c.idx < s.pairs + stacked {
        let (shape, pairs) = if c.idx < s.pairs { (many_pairs(&mut r, c.idx as usize, c.thorough()), true) } else { (gen::big(&mut r, (c.idx - s.pairs) as usize, 100), false) };
        let sp = gen::spec(&mut r, shape, if pairs { Opt { own: 30, loops: 0, ..Opt::default() } } else { Opt { own: 30, ..Opt::default() } });
        let m = &sp.model;
        let root = *r.pick(&m.nodes);
        let res = (|| -> R {
            if pairs {
                let g = sp.own();
                let own = r.pct(40);
                let built = if sp.is_default() { sp.graph()? } else { DefaultGraph::new() };
                let few = crate::own::Own(few_pairs());
                // from nothing; or, of a path, from all pairs but one, which need all nodes on one augmenting path
                let init: Vec<(usize, usize)> = if sp.fam == "long-path" { let w = walk(m); (1..w.len() - 2).step_by(2).map(|i| (w[i], w[i + 1])).collect() } else { vec![] };
                let mut p = pairing(&mut r, &init)?;
                let (k, d) = on_stack(2 * STACK_KB, || {
                    let d = if own || !sp.is_default() { painted(|| maximum_matching(&g, &mut p)).1 } else { painted(|| maximum_matching(&built, &mut p)).1 };
                    (p.order() / 2, d)
                })?;
                let d0 = on_stack(2 * STACK_KB, || painted(|| maximum_matching(&few, &mut Pairing::new())).1)?;
                c.max("stack_bytes_of_matching_many_pairs", d as u64);
                c.max("stack_bytes_of_matching_few_pairs", d0 as u64);
                ensure!(d <= 2 * d0 + 8192, "maximum matching of {} pairs used {} bytes of stack, that of 4 pairs {}", k, d, d0);
                c.count("pairs_found_on_small_stack", k as u64);
            } else if sp.is_default() { let g = sp.graph()?; small_stack(c, &g, m, root, true)?; }
            else { let g = sp.own(); small_stack(c, &g, m, root, true)?; }
            Ok(())
        })();
        c.max("largest_graph", m.n() as u64);
        c.sample(|| format!("{} names {} n={} m={} on a stack of {} KB", sp.fam, sp.names, m.n(), m.m(), STACK_KB));
        c.eval(Some(sp.key().get()));
        return res.map_err(|f| f.with(|| sp.show()));
    }
    let (mut shape, class) = s.corpus.shape(&mut r, c.idx - s.pairs - stacked);
    if class == "huge" { let n = gen::width(&mut r, 30, 150); shape = gen::wide(&mut r, n); }
    let sp = gen::spec(&mut r, shape, Opt::default());
    let res = (|| -> R {
        if sp.is_default() { let g = sp.graph()?; queries(c, &g, &sp, &mut r, true, true) }
        else if r.pct(50) || (class == "big" || class == "huge") { queries(c, &sp.own(), &sp, &mut r, true, true) }
        else if r.pct(50) { queries(c, &sp.lazy(), &sp, &mut r, true, true) }
        else {
            let (g, other) = (sp.own(), crate::own::inner(&mut r, &sp.model)?);
            let nested = subj("the algorithms on a small graph", || crate::own::Nested::new(&g, &other, r.u64()))?;
            queries(c, &nested, &sp, &mut r, true, false)?;
            nested.verdict(c)
        }
    })();
    c.count(match class { "huge" => "wide_graphs", "big" => "big_graphs", "random" => "random_graphs", _ => "exhaustive_small_graphs" }, 1);
    c.sample(|| sp.show());
    let mut k = Key::new();
    k.add(sp.key().get());
    c.eval(if sp.model.m() > 0 { Some(k.get()) } else { None });
    res.map_err(|f| f.with(|| sp.show()))
}
