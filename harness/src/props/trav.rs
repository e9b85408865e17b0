//! C08-C14: traversals, what is made of them, components.
use crate::ctx::{subj, Ctx, Fail, R};
use crate::gen::{self, Opt, Plan, Spec};
use crate::own::{inner, Nested};
use crate::model::{comps, dist, norm, Model};
use crate::oracle::{bfs_ref, dfs_ref, StepT};
use crate::props::graph::views;
use crate::rng::Rng;
use gamma::graph::{DefaultGraph, Graph};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst, Step};
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;

pub fn t(s: Step) -> StepT { (s.sid, s.tid, s.cut) }

/// More steps than any correct traversal can have.
pub fn cap(m: &Model) -> usize { 2 * m.m() + m.n() + 16 }

pub fn dfs_steps<G: Graph>(g: &G, root: usize, m: &Model) -> R<Vec<StepT>> {
    match subj("depth-first traversal", || DepthFirst::new(g, root).map(|it| it.take(cap(m)).map(t).collect()))? { Ok(v) => Ok(v), Err(e) => Err(Fail::v(format!("DepthFirst::new({}): {:?}", root, e))) }
}
pub fn bfs_steps<G: Graph>(g: &G, root: usize, m: &Model) -> R<Vec<StepT>> {
    match subj("breadth-first traversal", || BreadthFirst::new(g, root).map(|it| it.take(cap(m)).map(t).collect()))? { Ok(v) => Ok(v), Err(e) => Err(Fail::v(format!("BreadthFirst::new({}): {:?}", root, e))) }
}

fn brief<T: std::fmt::Debug>(v: &[T]) -> String { if v.len() <= 60 { format!("{:?}", v) } else { format!("{:?}... ({} items)", &v[..60], v.len()) } }

/// C08/C10: trace checker for coverage and flags; knows nothing about the order of traversal.
pub fn coverage(steps: &[StepT], m: &Model, root: usize) -> R {
    let comp = component_of(m, root);
    let mut reached: BTreeSet<usize> = BTreeSet::new();
    reached.insert(root);
    let mut done: BTreeSet<(usize, usize)> = BTreeSet::new();
    for (i, &(s, w, cut)) in steps.iter().enumerate() {
        ensure!(m.has(s) && m.has(w) && m.joined(s, w), "step {} ({},{}) is not an edge; steps {}", i, s, w, brief(steps));
        ensure!(done.insert(norm((s, w))), "step {} ({},{}) reports its edge again; steps {}", i, s, w, brief(steps));
        ensure!(reached.contains(&s), "step {} ({},{}) starts at a node not reached; steps {}", i, s, w, brief(steps));
        let old = reached.contains(&w);
        ensure!(cut == old, "step {} ({},{}) has cut={} although the target {}; steps {}", i, s, w, cut, if old { "had been reached" } else { "is new" }, brief(steps));
        reached.insert(w);
    }
    for e in &m.eset { if comp.contains(&e.0) { ensure!(done.contains(e), "edge {:?} of the root's component is never reported; root {} steps {}", e, root, brief(steps)); } }
    ensure!(reached == comp, "nodes reached {:?}, component {:?}; root {}", reached, comp, root);
    Ok(())
}
pub fn component_of(m: &Model, root: usize) -> BTreeSet<usize> {
    dist(&m.adj_idx(), m.idx[&root]).iter().enumerate().filter(|(_, d)| d.is_some()).map(|(i, _)| m.nodes[i]).collect()
}

fn same(got: &[StepT], want: &[StepT], root: usize) -> R {
    if got == want { return Ok(()); }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(Fail::v(format!("root {}: step {} is {:?}, the order rule demands {:?}; steps {}, demanded {}", root, i, got.get(i), want.get(i), brief(got), brief(want))))
}
/// C09, second sentence: a cut joins a node to its ancestor.
fn back_edges(steps: &[StepT], root: usize) -> R {
    let mut parent: BTreeMap<usize, usize> = BTreeMap::new();
    for &(s, w, cut) in steps {
        if !cut { parent.insert(w, s); continue; }
        let mut x = s;
        let mut k = 0;
        while x != w && x != root && k <= steps.len() { match parent.get(&x) { Some(&p) => x = p, None => break } k += 1; }
        ensure!(x == w, "cut step ({},{}) does not go to an ancestor; steps {}", s, w, brief(steps));
    }
    Ok(())
}
fn levels(steps: &[StepT], m: &Model, root: usize) -> R {
    let d = dist(&m.adj_idx(), m.idx[&root]);
    let at = |x: usize| d[m.idx[&x]].unwrap_or(usize::MAX);
    let mut last = 0;
    for &(s, w, cut) in steps {
        ensure!(at(s) >= last, "step ({},{}) comes back closer to the root {}; steps {}", s, w, root, brief(steps));
        last = at(s);
        ensure!(cut || at(w) == at(s) + 1, "step ({},{}) is not on a shortest path: distances {} and {}; root {}; steps {}", s, w, at(s), at(w), root, brief(steps));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum W { DfsCover, DfsOrder, BfsCover, BfsOrder, Convert }

fn roots(r: &mut Rng, m: &Model, class: &str) -> Vec<usize> {
    if m.n() == 0 { return vec![]; }
    if class == "exhaustive-small" || m.n() <= 6 { return m.nodes.clone(); }
    if class == "huge" { return vec![*r.pick(&m.nodes)]; }
    let k = if class == "big" { 2 } else { 4 };
    let mut v: Vec<usize> = (0..k).map(|_| *r.pick(&m.nodes)).collect();
    v.push(m.nodes[0]);
    v.sort(); v.dedup();
    v
}

fn check<G: Graph>(c: &mut Ctx, g: &G, sp: &Spec, rs: &[usize], w: W) -> R {
    let m = &sp.model;
    for &root in rs {
        let mut n = 0;
        match w {
            W::DfsCover => { let s = dfs_steps(g, root, m)?; n = s.len(); coverage(&s, m, root)?; count_steps(c, &s); }
            W::BfsCover => { let s = bfs_steps(g, root, m)?; n = s.len(); coverage(&s, m, root)?; count_steps(c, &s); }
            W::DfsOrder => { let s = dfs_steps(g, root, m)?; n = s.len(); same(&s, &dfs_ref(m, root), root)?; back_edges(&s, root)?; count_steps(c, &s); }
            W::BfsOrder => { let s = bfs_steps(g, root, m)?; n = s.len(); same(&s, &bfs_ref(m, root), root)?; levels(&s, m, root)?; count_steps(c, &s); }
            W::Convert => if !m.of(root).is_empty() { n = convert(c, g, m, root)?; },
        }
        let mut k = sp.key();
        k.add(root as u64);
        c.max("longest_trace", n as u64);
        c.count("traces", 1);
        c.eval(if n > 0 { Some(k.get()) } else { None });
    }
    Ok(())
}
fn count_steps(c: &mut Ctx, s: &[StepT]) {
    c.count("steps_observed", s.len() as u64);
    c.count("cut_steps_observed", s.iter().filter(|x| x.2).count() as u64);
}

/// C13 for one root with at least one edge.
fn convert<G: Graph>(c: &mut Ctx, g: &G, m: &Model, root: usize) -> R<usize> {
    let steps = dfs_steps(g, root, m)?;
    let mut nodes = vec![root];
    nodes.extend(steps.iter().filter(|s| !s.2).map(|s| s.1));
    let edges: Vec<(usize, usize)> = steps.iter().map(|s| (s.0, s.1)).collect();
    ensure!(!steps.is_empty(), "no step from root {} although it has edges", root);
    let (tn, te) = subj("into_table", || DepthFirst::new(g, root).ok().expect("root").into_table())?;
    ensure!(tn == nodes, "table nodes {}, reached in order {}", brief(&tn), brief(&nodes));
    ensure!(te == edges, "table edges {}, steps {}", brief(&te), brief(&edges));
    let h = match subj("try_from(DepthFirst)", || DefaultGraph::try_from(DepthFirst::new(g, root).ok().expect("root")))? { Ok(h) => h, Err(e) => return Err(Fail::v(format!("graph of the traversal from {} failed: {:?}", root, e))) };
    let (hn, he) = subj("nodes/edges", || (h.nodes().collect::<Vec<_>>(), h.edges().collect::<Vec<_>>()))?;
    ensure!(hn == nodes, "graph nodes {}, reached in order {}", brief(&hn), brief(&nodes));
    ensure!(he == edges, "graph edges {}, steps {}", brief(&he), brief(&edges));
    let comp = component_of(m, root);
    let mut want = Model::new();
    for &v in &m.nodes { if comp.contains(&v) { want.add_node(v).unwrap(); } }
    for &(a, b) in &m.edges { if comp.contains(&a) { want.add_edge(a, b).unwrap(); } }
    let mut r = c.rng.clone();
    views(&h, &want, &mut r, 10)?;
    c.count("table_rows_observed", (tn.len() + te.len()) as u64);
    c.count("conversions", 2);
    Ok(steps.len())
}

fn corpus(c: &mut Ctx, p: &Plan, w: W) -> R {
    let mut r = c.rng.clone();
    let (s, class) = p.shape(&mut r, c.idx);
    let sp = gen::spec(&mut r, s, Opt::default());
    let rs = roots(&mut r, &sp.model, class);
    let res = (|| -> R {
        if sp.is_default() {
            let g = sp.graph()?;
            check(c, &g, &sp, &rs, w)?;
            c.count("on_default_graph", 1);
        } else if r.pct(50) || (class == "big" || class == "huge") {
            check(c, &sp.own(), &sp, &rs, w)?;
            c.count("on_other_implementation", 1);
        } else {
            check(c, &sp.lazy(), &sp, &rs, w)?;
            c.count("on_other_implementation", 1);
        }
        Ok(())
    })();
    c.count(match class { "huge" => "huge_graphs", "big" => "big_graphs", "random" => "random_graphs", _ => "exhaustive_small_graphs" }, 1);
    c.max("largest_graph", sp.model.n() as u64);
    c.sample(|| format!("{} roots {:?}", sp.show(), rs));
    res.map_err(|f| f.with(|| sp.show()))
}
pub fn plan(t: bool) -> Plan { if t { Plan { huge: 12, small_n: 6, small_reps: 6, random: 250_000, big_reps: 12, big_scale: 100, top: 300 } } else { Plan { huge: 6, small_n: 5, small_reps: 8, random: 60_000, big_reps: 3, big_scale: 70, top: 300 } } }
pub fn len(t: bool) -> u64 { plan(t).len() }
pub fn c08(c: &mut Ctx) -> R { let p = plan(c.thorough()); corpus(c, &p, W::DfsCover) }
pub fn c09(c: &mut Ctx) -> R { let p = plan(c.thorough()); corpus(c, &p, W::DfsOrder) }
pub fn c10(c: &mut Ctx) -> R { let p = plan(c.thorough()); corpus(c, &p, W::BfsCover) }
pub fn c11(c: &mut Ctx) -> R { let p = plan(c.thorough()); corpus(c, &p, W::BfsOrder) }
pub fn c13(c: &mut Ctx) -> R { let p = plan(c.thorough()); corpus(c, &p, W::Convert) }

// ---------------------------------------------------------------- C12

/// Items as comparable text-free values: a step, or a component's nodes and edges.
#[derive(PartialEq, Clone, Debug)]
enum Item { S(StepT), C(Vec<usize>, Vec<(usize, usize)>) }
type It<'a> = Box<dyn Iterator<Item = Item> + 'a>;

/// Wraps a subject iterator without hiding its own `nth`, `size_hint` and so on behind `map`.
trait Raw<'a> {
    fn next(&mut self) -> Option<Item>;
    fn nth(&mut self, k: usize) -> Option<Item>;
    fn hint(&self) -> (usize, Option<usize>);
    fn part(&mut self, k: usize) -> Vec<Item>;
    fn fold_rest(self: Box<Self>, how: usize) -> Rest;
    fn by_loop(&mut self, k: usize) -> Vec<Item>;
}
enum Rest { All(Vec<Item>), Count(usize), Last(Option<Item>), Every(usize, Vec<Item>), After(usize, Vec<Item>), Until(usize, Vec<Item>) }
struct Rw<I, F>(I, F);
impl<'a, I: Iterator, F: Fn(I::Item) -> Item> Raw<'a> for Rw<I, F> {
    fn next(&mut self) -> Option<Item> { self.0.next().map(&self.1) }
    fn nth(&mut self, k: usize) -> Option<Item> { self.0.nth(k).map(&self.1) }
    fn hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn part(&mut self, k: usize) -> Vec<Item> { self.0.by_ref().take(k).map(&self.1).collect() }
    fn by_loop(&mut self, k: usize) -> Vec<Item> {
        let mut out = vec![];
        if k == 0 { return out; }
        for x in &mut self.0 { out.push((self.1)(x)); if out.len() == k { break; } }
        out
    }
    fn fold_rest(self: Box<Self>, how: usize) -> Rest {
        let Rw(it, f) = *self;
        let lim = 200_000;
        match how % 8 {
            0 => Rest::All(it.take(lim).map(&f).collect()),
            1 => Rest::Count(it.count()),
            2 => Rest::Last(it.last().map(&f)),
            3 => Rest::Every(2, it.step_by(2).take(lim).map(&f).collect()),
            4 => Rest::After(3, it.skip(3).take(lim).map(&f).collect()),
            5 => Rest::All(it.fold(vec![], |mut v, x| { v.push(f(x)); v })),
            6 => Rest::Until(2, it.enumerate().take_while(|(i, _)| *i < 2).map(|(_, x)| f(x)).collect()),
            _ => { let mut v = vec![]; it.for_each(|x| v.push(f(x))); Rest::All(v) }
        }
    }
}
fn comp_item(g: DefaultGraph) -> Item { Item::C(g.nodes().collect(), g.edges().collect()) }
fn open<'a, G: Graph>(g: &'a G, kind: usize, root: usize) -> R<Box<dyn Raw<'a> + 'a>> {
    subj("opening a traversal", || -> Box<dyn Raw<'a> + 'a> {
        match kind {
            0 => Box::new(Rw(DepthFirst::new(g, root).ok().expect("root"), |s| Item::S(t(s)))),
            1 => Box::new(Rw(BreadthFirst::new(g, root).ok().expect("root"), |s| Item::S(t(s)))),
            _ => Box::new(Rw(components(g), comp_item)),
        }
    })
}
struct Live<'a> { it: Option<Box<dyn Raw<'a> + 'a>>, want: std::rc::Rc<Vec<Item>>, pos: usize, name: String }

fn consume<G: Graph, H: Graph>(c: &mut Ctx, g: &G, plain: &H, m: &Model, r: &mut Rng, log: &mut Vec<String>) -> R {
    if m.n() == 0 { return Ok(()); }
    let mut cache: BTreeMap<(usize, usize), std::rc::Rc<Vec<Item>>> = BTreeMap::new();
    let limit = cap(m);
    let mut live: Vec<Live> = vec![];
    let ops = r.range(4, 40);
    for _ in 0..ops {
        if live.is_empty() || (live.len() < 4 && r.pct(20)) {
            let kind = r.below(3);
            let root = if kind == 2 { 0 } else { *r.pick(&m.nodes) };
            let want = match cache.get(&(kind, root)) { Some(w) => w.clone(), None => {
                // the reference: a fresh one, one item at a time, alone
                let mut it = open(plain, kind, root)?;
                let w = subj("next", || { let mut v = vec![]; while v.len() < limit { match it.next() { Some(x) => v.push(x), None => break } } v })?;
                let w = std::rc::Rc::new(w);
                cache.insert((kind, root), w.clone());
                w
            } };
            let name = format!("{}{}", ["dfs", "bfs", "components"][kind], if kind == 2 { String::new() } else { format!("@{}", root) });
            log.push(format!("open {}", name));
            live.push(Live { it: Some(open(g, kind, root)?), want, pos: 0, name });
            continue;
        }
        let i = r.below(live.len());
        let l = &mut live[i];
        let left = l.want.len() - l.pos;
        let it = l.it.as_mut().unwrap();
        let (lo, hi) = subj("size_hint", || it.hint())?;
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size_hint ({},{:?}) with {} items left", l.name, lo, hi, left);
        c.count("size_hints_observed", 1);
        match r.below(8) {
            0 | 1 | 2 => { log.push(format!("{}.next", l.name)); let x = subj("next", || it.next())?; let w = l.want.get(l.pos).cloned(); ensure!(x == w, "{} at {}: next gives {:?}, alone it gives {:?}", l.name, l.pos, x, w); l.pos = (l.pos + 1).min(l.want.len()); c.count("items_observed", 1); }
            3 => { let k = r.below(5); log.push(format!("{}.nth({})", l.name, k)); let x = subj("nth", || it.nth(k))?; let w = l.want.get(l.pos + k).cloned(); ensure!(x == w, "{} at {}: nth({}) gives {:?}, expected {:?}", l.name, l.pos, k, x, w); l.pos = (l.pos + k + 1).min(l.want.len()); c.count("items_observed", 1); }
            4 => { let k = r.below(8); log.push(format!("{}.take({})", l.name, k)); let x = if r.pct(50) { subj("take", || it.part(k))? } else { subj("for", || it.by_loop(k))? }; let e = (l.pos + k).min(l.want.len()); ensure!(x == l.want[l.pos..e], "{} at {}: a part of {} gives {:?}, expected {:?}", l.name, l.pos, k, x, &l.want[l.pos..e]); c.count("items_observed", x.len() as u64); l.pos = e; }
            5 => { // run to the end, then it has to stay ended
                log.push(format!("{}.finish", l.name));
                let k = left + 2;
                let x = subj("take", || it.part(k))?;
                ensure!(x == l.want[l.pos..], "{} at {}: the rest is {}, expected {}", l.name, l.pos, brief(&x), brief(&l.want[l.pos..]));
                c.count("items_observed", x.len() as u64);
                l.pos = l.want.len();
                for _ in 0..3 { let x = subj("next", || it.next())?; ensure!(x.is_none(), "{} yields {:?} after its end", l.name, x); }
                c.count("exhausted", 1);
            }
            6 => { let how = r.below(8); log.push(format!("{}.consume{}", l.name, how));
                let rest = &l.want[l.pos..];
                let it = l.it.take().unwrap();
                let got = subj("consuming the rest", || it.fold_rest(how))?;
                let ok = match &got {
                    Rest::All(v) => v == rest,
                    Rest::Count(k) => *k == rest.len(),
                    Rest::Last(x) => x.as_ref() == rest.last(),
                    Rest::Every(k, v) => v.iter().eq(rest.iter().step_by(*k)),
                    Rest::After(k, v) => v.iter().eq(rest.iter().skip(*k)),
                    Rest::Until(k, v) => v.iter().eq(rest.iter().take(*k)),
                };
                ensure!(ok, "{} at {}: consuming the rest (way {}) disagrees with the items one at a time", l.name, l.pos, how);
                c.count("consumed_whole", 1);
                live.remove(i);
            }
            _ => { log.push(format!("drop {}", l.name)); c.count("abandoned", 1); let l = live.remove(i); subj("drop", move || drop(l.it))?; }
        }
    }
    c.max("most_live_iterators", 4);
    // the survivors finish
    for l in live.iter_mut() { let it = l.it.as_mut().unwrap(); let left = l.want.len() - l.pos; let x = subj("take", || it.part(left + 1))?; ensure!(x == l.want[l.pos..], "{} at {}: the rest differs from the items one at a time", l.name, l.pos); c.count("items_observed", x.len() as u64); }
    Ok(())
}
pub fn len12(t: bool) -> u64 { if t { 1_000_000 } else { 100_000 } }
pub fn c12(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = match c.idx % 200 { 199 => *r.pick(&[300, 900]), x if x < 80 => 8, x if x < 180 => 20, _ => 60 };
    let s = if c.idx % 25_000 == 12_345 { gen::huge(&mut r, c.idx as usize / 25_000) } else { gen::shape(&mut r, k) };
    let sp = gen::spec(&mut r, s, Opt::default());
    let mut log = vec![];
    let res = (|| -> R { if sp.is_default() { let g = sp.graph()?; consume(c, &g, &g, &sp.model, &mut r, &mut log) }
        else if r.pct(70) || sp.model.n() > 300 { let g = sp.own(); consume(c, &g, &g, &sp.model, &mut r, &mut log) }
        else {
            let (g, other) = (sp.own(), inner(&mut r, &sp.model)?);
            let nested = subj("the algorithms on a small graph", || Nested::new(&g, &other, r.u64()))?;
            consume(c, &nested, &g, &sp.model, &mut r, &mut log)?;
            nested.verdict(c)
        } })();
    c.count("histories", 1);
    let mut key = sp.key();
    for l in &log { for b in l.bytes() { key.add(b as u64); } }
    c.sample(|| format!("{} history {:?}", sp.show(), log));
    c.eval(if sp.model.m() > 0 { Some(key.get()) } else { None });
    res.map_err(|f| f.with(|| format!("{}\nhistory {:?}", sp.show(), log)))
}
#[allow(dead_code)]
fn _unused(_: It) {}

// ---------------------------------------------------------------- C14

fn comps_check<G: Graph>(c: &mut Ctx, g: &G, m: &Model, r: &mut Rng) -> R {
    let adj = m.adj_idx();
    let want = comps(&adj);
    let lim = m.n() + 4;
    let got: Vec<DefaultGraph> = subj("components", || components(g).take(lim).collect())?;
    let listed: Vec<Vec<usize>> = subj("nodes", || got.iter().map(|h| h.nodes().collect()).collect())?;
    let mut owner: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, l) in listed.iter().enumerate() { for &v in l {
        ensure!(m.has(v), "component {} has the unknown node {}", i, v);
        if let Some(j) = owner.insert(v, i) { return Err(Fail::v(format!("node {} is in components {} and {}: {}", v, j, i, brief(&listed)))); }
    } }
    for &v in &m.nodes { ensure!(owner.contains_key(&v), "node {} is in no component: {}", v, brief(&listed)); }
    ensure!(got.len() == want.len(), "{} components, expected {}: {}", got.len(), want.len(), brief(&listed));
    // which component each edge belongs to, in one pass
    let mut part = vec![0; m.n()];
    for (i, w) in want.iter().enumerate() { for &x in w { part[x] = i; } }
    let mut edges: Vec<Vec<(usize, usize)>> = vec![vec![]; want.len()];
    for &(a, b) in &m.edges { edges[part[m.idx[&a]]].push((a, b)); }
    for (i, w) in want.iter().enumerate() {
        let mut sub = Model::new();
        for &x in w { sub.add_node(m.nodes[x]).unwrap(); }
        for &(a, b) in &edges[i] { sub.add_edge(a, b).unwrap(); }
        views(&got[i], &sub, r, 8).map_err(|f| Fail::v(format!("component {} (nodes {}), expected the one of {}: {}", i, brief(&listed[i]), m.nodes[w[0]], f.msg)))?;
        c.count("edges_observed", sub.m() as u64);
        if w.len() == 1 { c.count("singletons_observed", 1); }
    }
    c.count("components_observed", got.len() as u64);
    c.max("most_components", got.len() as u64);
    Ok(())
}
pub fn plan14(t: bool) -> Plan { if t { Plan { huge: 12, small_n: 6, small_reps: 4, random: 200_000, big_reps: 10, big_scale: 100, top: 300 } } else { Plan { huge: 6, small_n: 5, small_reps: 6, random: 60_000, big_reps: 3, big_scale: 70, top: 300 } } }
pub fn len14(t: bool) -> u64 { plan14(t).len() }
pub fn c14(c: &mut Ctx) -> R {
    let p = plan14(c.thorough());
    let mut r = c.rng.clone();
    let (mut s, class) = p.shape(&mut r, c.idx);
    if class == "random" && r.pct(40) {
        // more parts: drop edges
        let keep = r.range(30, 90);
        s.edges.retain(|_| r.below(100) < keep);
    }
    let sp = gen::spec(&mut r, s, Opt::default());
    let res = (|| -> R { if sp.is_default() { let g = sp.graph()?; comps_check(c, &g, &sp.model, &mut r) } else if r.pct(50) || (class == "big" || class == "huge") { comps_check(c, &sp.own(), &sp.model, &mut r) } else { comps_check(c, &sp.lazy(), &sp.model, &mut r) } })();
    c.count(match class { "huge" => "huge_graphs", "big" => "big_graphs", "random" => "random_graphs", _ => "exhaustive_small_graphs" }, 1);
    c.max("largest_graph", sp.model.n() as u64);
    c.sample(|| sp.show());
    c.eval(if sp.model.m() > 0 { Some(sp.key().get()) } else { None });
    res.map_err(|f| f.with(|| sp.show()))
}
