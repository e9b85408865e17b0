//! Implementations of the subject's `Graph` trait that are not the subject's own, and a recorder.
use crate::model::Model;
use crate::oracle::StepT;
use gamma::graph::{DefaultGraph, Error, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst, Step};
use std::cell::{Cell, RefCell};
use std::convert::TryFrom;

/// Stores everything; node, neighbor and edge orders are whatever the model says.
pub struct Own(pub Model);

impl Graph for Own {
    fn is_empty(&self) -> bool { self.0.n() == 0 }
    fn order(&self) -> usize { self.0.n() }
    fn size(&self) -> usize { self.0.m() }
    fn nodes(&self) -> Box<dyn Iterator<Item = usize> + '_> { Box::new(self.0.nodes.iter().cloned()) }
    fn neighbors(&self, id: usize) -> Result<Box<dyn Iterator<Item = usize> + '_>, Error> {
        match self.0.idx.get(&id) {
            Some(&i) => Ok(Box::new(self.0.nbr[i].iter().cloned())),
            None => Err(Error::MissingNode(id)),
        }
    }
    fn has_node(&self, id: usize) -> bool { self.0.has(id) }
    fn degree(&self, id: usize) -> Result<usize, Error> {
        match self.0.idx.get(&id) { Some(&i) => Ok(self.0.nbr[i].len()), None => Err(Error::MissingNode(id)) }
    }
    fn edges(&self) -> Box<dyn Iterator<Item = (usize, usize)> + '_> { Box::new(self.0.edges.iter().cloned()) }
    fn has_edge(&self, s: usize, t: usize) -> Result<bool, Error> {
        if !self.0.has(s) { return Err(Error::MissingNode(s)); }
        if !self.0.has(t) { return Err(Error::MissingNode(t)); }
        Ok(self.0.joined(s, t))
    }
}

/// Stores only rows and derives everything else on demand, through iterators that give no size hint.
pub struct Lazy(pub Model);

struct NoHint<I>(I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
}

impl Graph for Lazy {
    fn is_empty(&self) -> bool { self.nodes().next().is_none() }
    fn order(&self) -> usize { self.nodes().count() }
    fn size(&self) -> usize { self.edges().count() }
    fn nodes(&self) -> Box<dyn Iterator<Item = usize> + '_> { Box::new(NoHint(self.0.nodes.iter().copied())) }
    fn neighbors(&self, id: usize) -> Result<Box<dyn Iterator<Item = usize> + '_>, Error> {
        match self.0.idx.get(&id).copied() {
            Some(i) => Ok(Box::new(NoHint(self.0.nbr[i].iter().copied()))),
            None => Err(Error::MissingNode(id)),
        }
    }
    fn has_node(&self, id: usize) -> bool { self.0.idx.contains_key(&id) }
    fn degree(&self, id: usize) -> Result<usize, Error> { Ok(self.neighbors(id)?.count()) }
    fn edges(&self) -> Box<dyn Iterator<Item = (usize, usize)> + '_> {
        // from the other end than `Own`, last row first
        let m = &self.0;
        Box::new(NoHint((0..m.n()).rev().flat_map(move |i| {
            m.nbr[i].iter().filter(move |x| m.idx[x] <= i).map(move |&x| (m.nodes[i], x))
        })))
    }
    fn has_edge(&self, s: usize, t: usize) -> Result<bool, Error> {
        if !self.has_node(t) { return Err(Error::MissingNode(t)); }
        let mut it = self.neighbors(s)?;
        Ok(it.any(|x| x == t))
    }
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Calls { pub nodes: u64, pub neighbors: u64, pub edges: u64, pub has_node: u64, pub has_edge: u64, pub other: u64, pub missing: u64 }
impl Calls { pub fn total(&self) -> u64 { self.nodes + self.neighbors + self.edges + self.has_node + self.has_edge + self.other } }

/// Records what an algorithm asks of a graph.
pub struct Probe<'a, G> { pub g: &'a G, pub c: Cell<Calls>, max: u64 }
impl<'a, G: Graph> Probe<'a, G> {
    pub fn new(g: &'a G) -> Self { Probe { g, c: Cell::new(Calls::default()), max: u64::MAX } }
    /// Gives up, by a panic, at more than `max` queries.
    pub fn upto(g: &'a G, max: u64) -> Self { Probe { max, ..Self::new(g) } }
    fn up(&self, f: impl FnOnce(&mut Calls)) { let mut c = self.c.get(); f(&mut c); self.c.set(c); if c.total() > self.max { panic!("more than {} queries: {:?}", self.max, c); } }
}
impl<'a, G: Graph> Graph for Probe<'a, G> {
    fn is_empty(&self) -> bool { self.up(|c| c.other += 1); self.g.is_empty() }
    fn order(&self) -> usize { self.up(|c| c.other += 1); self.g.order() }
    fn size(&self) -> usize { self.up(|c| c.other += 1); self.g.size() }
    fn nodes(&self) -> Box<dyn Iterator<Item = usize> + '_> { self.up(|c| c.nodes += 1); self.g.nodes() }
    fn neighbors(&self, id: usize) -> Result<Box<dyn Iterator<Item = usize> + '_>, Error> {
        let r = self.g.neighbors(id);
        self.up(|c| { c.neighbors += 1; if r.is_err() { c.missing += 1 } });
        r
    }
    fn has_node(&self, id: usize) -> bool { self.up(|c| c.has_node += 1); self.g.has_node(id) }
    fn degree(&self, id: usize) -> Result<usize, Error> { self.up(|c| c.other += 1); self.g.degree(id) }
    fn edges(&self) -> Box<dyn Iterator<Item = (usize, usize)> + '_> { self.up(|c| c.edges += 1); self.g.edges() }
    fn has_edge(&self, s: usize, t: usize) -> Result<bool, Error> {
        let r = self.g.has_edge(s, t);
        self.up(|c| { c.has_edge += 1; if r.is_err() { c.missing += 1 } });
        r
    }
}

/// A graph whose answers take the library's own algorithms (on another graph) to find, as those of a
/// computed graph may. What these give each time is compared with what they gave before all that.
pub struct Nested<'a, G> {
    g: &'a G,
    inner: &'a DefaultGraph,
    roots: Vec<usize>,
    want: Vec<(Vec<StepT>, Vec<StepT>)>,
    parts: Vec<(Vec<usize>, Vec<(usize, usize)>)>,
    best: usize,
    open: RefCell<Vec<(Box<dyn Iterator<Item = StepT> + 'a>, usize, bool, usize)>>,
    state: Cell<u64>,
    busy: Cell<bool>,
    pub bad: RefCell<String>,
    pub runs: Cell<u64>,
}
fn st(s: Step) -> StepT { (s.sid, s.tid, s.cut) }
fn parts_of(g: &DefaultGraph) -> Vec<(Vec<usize>, Vec<(usize, usize)>)> { components(g).take(g.order() + 4).map(|c| (c.nodes().collect(), c.edges().collect())).collect() }
fn size_of_matching(g: &DefaultGraph) -> usize { let mut p = Pairing::new(); maximum_matching(g, &mut p); p.edges().count() }
impl<'a, G: Graph> Nested<'a, G> {
    pub fn new(g: &'a G, inner: &'a DefaultGraph, state: u64) -> Self {
        let roots: Vec<usize> = inner.nodes().collect();
        let lim = 2 * inner.size() + 4;
        let want = roots.iter().map(|&r| (DepthFirst::new(inner, r).ok().expect("root").take(lim).map(st).collect(), BreadthFirst::new(inner, r).ok().expect("root").take(lim).map(st).collect())).collect();
        Nested { g, inner, roots, want, parts: parts_of(inner), best: size_of_matching(inner), open: RefCell::new(vec![]), state: Cell::new(state), busy: Cell::new(false), bad: RefCell::new(String::new()), runs: Cell::new(0) }
    }
    fn say(&self, ok: bool, what: &str) { if !ok && self.bad.borrow().is_empty() { *self.bad.borrow_mut() = what.to_string(); } }
    fn hit(&self) {
        let x = crate::rng::mix(self.state.get());
        self.state.set(x);
        if self.busy.get() || x % 3 != 0 { return; }
        self.busy.set(true);
        self.runs.set(self.runs.get() + 1);
        let k = (x >> 16) as usize % self.roots.len();
        let (root, lim) = (self.roots[k], 2 * self.inner.size() + 4);
        match (x >> 8) % 9 {
            0 => self.say(DepthFirst::new(self.inner, root).map(|i| i.take(lim).map(st).eq(self.want[k].0.iter().cloned())) == Ok(true), "a depth-first traversal of another graph"),
            1 => self.say(BreadthFirst::new(self.inner, root).map(|i| i.take(lim).map(st).eq(self.want[k].1.iter().cloned())) == Ok(true), "a breadth-first traversal of another graph"),
            2 => self.say(parts_of(self.inner) == self.parts, "the components of another graph"),
            3 => { let p = greedy(self.inner); self.say(p.edges().all(|(a, b)| self.inner.has_edge(a, b) == Ok(true)) && 2 * p.edges().count() >= self.best, "the greedy matching of another graph"); }
            4 => self.say(size_of_matching(self.inner) == self.best, "the maximum matching of another graph"),
            5 => { let e: Vec<_> = self.inner.edges().collect(); self.say(DefaultGraph::try_from(e.clone()).map(|h| h.edges().eq(e.iter().cloned())) == Ok(true), "a graph made of the edges of another graph"); }
            6 | 7 => { let mut o = self.open.borrow_mut(); // begun here, to be continued at some later query
                let d = x >> 40 & 1 == 0;
                if o.len() < 3 { o.push((if d { Box::new(DepthFirst::new(self.inner, root).ok().expect("root").take(lim).map(st)) } else { Box::new(BreadthFirst::new(self.inner, root).ok().expect("root").take(lim).map(st)) }, k, d, 0)); } }
            _ => { let t: Option<Vec<(usize, usize)>> = DepthFirst::new(self.inner, root).ok().map(|i| i.into_table().1); self.say(t == Some(self.want[k].0.iter().map(|s| (s.0, s.1)).collect()), "a table made of another graph"); }
        }
        let mut o = self.open.borrow_mut();
        if !o.is_empty() {
            let j = (x >> 32) as usize % o.len();
            let (it, k, d, at) = &mut o[j];
            let want = if *d { &self.want[*k].0 } else { &self.want[*k].1 };
            let got = it.next();
            self.say(got.as_ref() == want.get(*at), "a traversal of another graph, continued");
            *at += 1;
            if got.is_none() || x >> 50 & 7 == 0 { drop(o.swap_remove(j)); }
        }
        drop(o);
        self.busy.set(false);
    }
}
macro_rules! during { ($s:expr, $it:expr) => {{ let s = $s; Box::new($it.inspect(move |_| s.hit())) }} }
impl<'a, G: Graph> Graph for Nested<'a, G> {
    fn is_empty(&self) -> bool { self.hit(); self.g.is_empty() }
    fn order(&self) -> usize { self.hit(); self.g.order() }
    fn size(&self) -> usize { self.hit(); self.g.size() }
    fn nodes(&self) -> Box<dyn Iterator<Item = usize> + '_> { self.hit(); during!(self, self.g.nodes()) }
    fn neighbors(&self, id: usize) -> Result<Box<dyn Iterator<Item = usize> + '_>, Error> { self.hit(); Ok(during!(self, self.g.neighbors(id)?)) }
    fn has_node(&self, id: usize) -> bool { self.hit(); self.g.has_node(id) }
    fn degree(&self, id: usize) -> Result<usize, Error> { self.hit(); self.g.degree(id) }
    fn edges(&self) -> Box<dyn Iterator<Item = (usize, usize)> + '_> { self.hit(); during!(self, self.g.edges()) }
    fn has_edge(&self, s: usize, t: usize) -> Result<bool, Error> { self.hit(); self.g.has_edge(s, t) }
}

/// A small graph for `Nested`, over ids some of which the outer one has too.
pub fn inner(r: &mut crate::rng::Rng, m: &Model) -> crate::ctx::R<DefaultGraph> {
    let top = if r.pct(80) { 6 } else { 14 };
    let s = crate::gen::shape(r, top);
    let mut ids: Vec<usize> = m.nodes.iter().cloned().take(64).collect();
    r.shuffle(&mut ids);
    ids.truncate(s.n);
    let mut x = r.below(5);
    while ids.len() < s.n { if !ids.contains(&x) { ids.push(x); } x += 1 + r.below(3); }
    r.shuffle(&mut ids);
    let ops = ids.iter().map(|&v| crate::gen::Op::Node(v)).chain(s.edges.iter().map(|&(a, b)| crate::gen::Op::Edge(ids[a], ids[b]))).collect();
    crate::gen::build(&crate::gen::Build::Ops(ops))
}
impl<'a, G: Graph> Nested<'a, G> {
    /// Nothing may have gone differently inside.
    pub fn verdict(&self, c: &mut crate::ctx::Ctx) -> crate::ctx::R {
        c.count("operations_nested_in_queries", self.runs.get());
        let bad = self.bad.borrow();
        crate::ensure!(bad.is_empty(), "while one graph's query was being answered, {} ({:?}) came out differently", bad, self.inner);
        Ok(())
    }
}
