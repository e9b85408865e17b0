//! C21: results depend only on what the graph interface reports.
use crate::ctx::{subj, Ctx, R};
use crate::gen::{self, Build, Op, Opt, Plan, Spec};
use crate::model::Model;
use crate::oracle::StepT;
use crate::own::{inner, Lazy, Nested, Own};
use crate::props::matching::{large, oracle, pairing, pairing_views, start, valid};
use crate::props::trav::{bfs_steps, dfs_steps};
use crate::rng::Rng;
use gamma::graph::Graph;
use gamma::matching::{greedy, maximum_matching};
use gamma::selection::components;
use std::collections::{BTreeMap, BTreeSet};

/// What the algorithms gave on one graph.
#[derive(PartialEq, Clone)]
struct Out { dfs: Vec<Vec<StepT>>, bfs: Vec<Vec<StepT>>, comps: Vec<(Vec<usize>, Vec<(usize, usize)>)> }

fn run<G: Graph>(g: &G, m: &Model, roots: &[usize]) -> R<Out> {
    let mut o = Out { dfs: vec![], bfs: vec![], comps: vec![] };
    for &r in roots { o.dfs.push(dfs_steps(g, r, m)?); o.bfs.push(bfs_steps(g, r, m)?); }
    let lim = m.n() + 4;
    o.comps = subj("components", || components(g).take(lim).map(|c| (c.nodes().collect(), c.edges().collect())).collect())?;
    Ok(o)
}
fn mapped(o: &Out, f: &dyn Fn(usize) -> usize) -> Out {
    let st = |v: &Vec<StepT>| v.iter().map(|s| (f(s.0), f(s.1), s.2)).collect::<Vec<_>>();
    Out { dfs: o.dfs.iter().map(st).collect(), bfs: o.bfs.iter().map(st).collect(), comps: o.comps.iter().map(|(n, e)| (n.iter().map(|&x| f(x)).collect(), e.iter().map(|&(a, b)| (f(a), f(b))).collect())).collect() }
}
fn compare(a: &Out, b: &Out, what: &str) -> R {
    for (k, (x, y)) in a.dfs.iter().zip(&b.dfs).enumerate() { ensure!(x == y, "{}: depth-first steps from root no. {} differ: {:?} and {:?}", what, k, x, y); }
    for (k, (x, y)) in a.bfs.iter().zip(&b.bfs).enumerate() { ensure!(x == y, "{}: breadth-first steps from root no. {} differ: {:?} and {:?}", what, k, x, y); }
    ensure!(a.comps == b.comps, "{}: components differ: {:?} and {:?}", what, a.comps, b.comps);
    Ok(())
}
/// Validity and sizes of the matchings found on one graph.
fn matchings<G: Graph>(g: &G, m: &Model, starts: &[Vec<(usize, usize)>], best: usize, r: &mut Rng) -> R<u64> {
    let mut seen = 0;
    let p = subj("greedy", || greedy(g))?;
    let es = pairing_views(&p, &m.nodes, &[])?;
    valid(&es, m)?;
    let used: BTreeSet<usize> = es.iter().flat_map(|e| [e.0, e.1]).collect();
    for &(a, b) in &m.edges { ensure!(a == b || used.contains(&a) || used.contains(&b), "greedy matching {:?} is not maximal: ({},{})", es, a, b); }
    for s in starts {
        let mut p = pairing(r, s)?;
        subj("maximum_matching", || maximum_matching(g, &mut p))?;
        let es = pairing_views(&p, &m.nodes, &[])?;
        valid(&es, m)?;
        ensure!(es.len() == best, "{} pairs from the start {:?}, maximum is {}", es.len(), s, best);
        seen += es.len() as u64;
    }
    Ok(seen)
}

/// Target names: the orders of size of the ids change as well.
fn renaming(r: &mut Rng, m: &Model) -> (BTreeMap<usize, usize>, &'static str) {
    let mut sorted = m.nodes.clone();
    sorted.sort();
    let n = sorted.len();
    if r.pct(25) && n > 0 {
        let rev: BTreeMap<usize, usize> = sorted.iter().map(|&x| (x, usize::MAX - x)).collect();
        return (rev, "reversed");
    }
    let (l, name) = gen::labels(r, n);
    let mut l = l;
    if r.pct(60) { r.shuffle(&mut l); }
    (m.nodes.iter().cloned().zip(l).collect(), name)
}

pub fn plan(t: bool) -> Plan { if t { Plan { huge: 3000, small_n: 6, small_reps: 3, random: 200_000, big_reps: 3, big_scale: 6, top: 80 } } else { Plan { huge: 300, small_n: 5, small_reps: 6, random: 24_000, big_reps: 1, big_scale: 5, top: 80 } } }
pub fn len(t: bool) -> u64 { plan(t).len() }
pub fn c21(c: &mut Ctx) -> R {
    let p = plan(c.thorough());
    let mut r = c.rng.clone();
    let (mut s, class) = p.shape(&mut r, c.idx);
    // huge: every second one without maximum matching, which would be too slow
    let huge = class == "huge";
    let enumerated = huge && c.idx % 2 == 0;
    if huge { s = if enumerated && c.idx % 60 == 0 { gen::huge(&mut r, c.idx as usize / 60) } else if enumerated { gen::big(&mut r, c.idx as usize / 2, 90) } else { large(&mut r, 2 + c.idx as usize / 2 % 8) }; }
    let sp = gen::spec(&mut r, s, Opt::default());
    let m = &sp.model;
    let (map, name) = renaming(&mut r, m);
    let f = |x: usize| map[&x];
    let m2 = m.relabel(&f);
    let mut roots: Vec<usize> = if m.n() <= 5 { m.nodes.clone() } else { (0..if m.n() > 10_000 { 1 } else { 4 }).map(|_| *r.pick(&m.nodes)).collect() };
    roots.dedup();
    let roots2: Vec<usize> = roots.iter().map(|&x| f(x)).collect();
    let res = (|| -> R {
        let (own, lazy) = (Own(m.clone()), Lazy(m.clone()));
        let (own2, lazy2) = (Own(m2.clone()), Lazy(m2.clone()));
        let base = run(&own, m, &roots)?;
        compare(&base, &run(&lazy, m, &roots)?, "two implementations reporting the same nodes and neighbors")?;
        let want = mapped(&base, &f);
        compare(&want, &run(&own2, &m2, &roots2)?, "after renaming")?;
        compare(&want, &run(&lazy2, &m2, &roots2)?, "after renaming, other implementation")?;
        let (mut starts, mut best) = (vec![], 0);
        if !enumerated {
            let o = oracle(m);
            best = o.size;
            if !huge { starts.push(vec![]); }
            let k = if huge { 7 } else { *r.pick(&[1, 2, 3, 4, 5, 7]) };
            starts.push(start(&mut r, m, &o, k).0);
        }
        let starts2: Vec<Vec<(usize, usize)>> = starts.iter().map(|s| s.iter().map(|&(a, b)| (f(a), f(b))).collect()).collect();
        let mut seen = matchings(&own, m, &starts, best, &mut r)?;
        seen += matchings(&own2, &m2, &starts2, best, &mut r)?;
        if r.pct(50) { seen += matchings(&lazy2, &m2, &starts2, best, &mut r)?; } else { seen += matchings(&lazy, m, &starts, best, &mut r)?; }
        let mut runs = 4;
        if m.n() <= 300 && r.pct(30) {
            let other = inner(&mut r, m)?;
            let nested = subj("the algorithms on a small graph", || Nested::new(&own, &other, r.u64()))?;
            compare(&base, &run(&nested, m, &roots)?, "an implementation that uses the algorithms itself")?;
            seen += matchings(&nested, m, &starts, best, &mut r)?;
            nested.verdict(c)?;
            runs += 1;
        }
        if sp.is_default() {
            let g = sp.graph()?;
            compare(&base, &run(&g, m, &roots)?, "DefaultGraph and another implementation")?;
            seen += matchings(&g, m, &starts, best, &mut r)?;
            let ops2 = |ops: &[Op]| -> Vec<Op> { ops.iter().filter_map(|op| match op {
                Op::Node(v) => map.get(v).map(|&v| Op::Node(v)),
                Op::Edge(a, b) => map.get(a).and_then(|&a| map.get(b).map(|&b| Op::Edge(a, b))),
            }).collect() };
            let edges2 = |es: &[(usize, usize)]| Build::Edges(es.iter().map(|&(a, b)| (f(a), f(b))).collect());
            let b2 = match &sp.build {
                Build::Ops(ops) => Some(Build::Ops(ops2(ops))),
                Build::Edges(es) => Some(edges2(es)),
                Build::Then(first, ops) => match &**first { Build::Edges(es) => Some(Build::Then(Box::new(edges2(es)), ops2(ops))), _ => None },
                _ => None,
            };
            if let Some(b2) = b2 {
                let g2 = gen::build(&b2)?;
                compare(&want, &run(&g2, &m2, &roots2)?, "renamed DefaultGraph")?;
                seen += matchings(&g2, &m2, &starts2, best, &mut r)?;
                runs += 1;
            }
            runs += 1;
        }
        c.count("runs_compared", runs);
        c.count("steps_compared", base.dfs.iter().chain(&base.bfs).map(|v| v.len() as u64).sum());
        c.count("components_compared", base.comps.len() as u64);
        c.count("pairs_observed", seen);
        Ok(())
    })();
    if m2.has(0) { c.count("with_id_zero", 1); }
    if m2.has(usize::MAX) { c.count("with_largest_id", 1); }
    c.count(match class { "huge" => "huge_graphs", "big" => "big_graphs", "random" => "random_graphs", _ => "exhaustive_small_graphs" }, 1);
    c.max("largest_graph", m.n() as u64);
    c.sample(|| format!("{} renamed ({}) {:?}", sp.show(), name, map));
    let mut k = sp.key();
    for (a, b) in &map { k.add(*a as u64).add(*b as u64); }
    c.eval(if m.m() > 0 { Some(k.get()) } else { None });
    res.map_err(|e| e.with(|| describe(&sp, &map)))
}
fn describe(sp: &Spec, map: &BTreeMap<usize, usize>) -> String { let mut s = format!("{} renaming {:?}", sp.show(), map); if s.len() > 12000 { s.truncate(12000); } s }
