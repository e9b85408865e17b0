//! The executable specification of an undirected graph, written independently of the subject: plain
//! ordered lists. Also the oracles' view (index-based adjacency).
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum ModelErr { MissingNode(usize), DuplicateNode(usize), DuplicateEdge(usize, usize) }

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub nodes: Vec<usize>,
    pub nbr: Vec<Vec<usize>>,
    pub edges: Vec<(usize, usize)>,
    pub idx: BTreeMap<usize, usize>,
    pub eset: BTreeSet<(usize, usize)>,
}

pub fn norm(e: (usize, usize)) -> (usize, usize) { if e.0 <= e.1 { e } else { (e.1, e.0) } }

impl Model {
    pub fn new() -> Self { Self::default() }
    pub fn n(&self) -> usize { self.nodes.len() }
    pub fn m(&self) -> usize { self.edges.len() }
    pub fn has(&self, id: usize) -> bool { self.idx.contains_key(&id) }
    pub fn joined(&self, a: usize, b: usize) -> bool { self.eset.contains(&norm((a, b))) }
    pub fn of(&self, id: usize) -> &[usize] { &self.nbr[self.idx[&id]] }

    /// Why adding this node must be refused, if it must.
    pub fn refuse_node(&self, id: usize) -> bool { self.has(id) }
    pub fn add_node(&mut self, id: usize) -> Result<(), ModelErr> {
        if self.has(id) { return Err(ModelErr::DuplicateNode(id)); }
        self.idx.insert(id, self.nodes.len());
        self.nodes.push(id);
        self.nbr.push(vec![]);
        Ok(())
    }
    pub fn add_edge(&mut self, a: usize, b: usize) -> Result<(), ModelErr> {
        if !self.has(a) { return Err(ModelErr::MissingNode(a)); }
        if !self.has(b) { return Err(ModelErr::MissingNode(b)); }
        if self.joined(a, b) { return Err(ModelErr::DuplicateEdge(a, b)); }
        let (i, j) = (self.idx[&a], self.idx[&b]);
        self.nbr[i].push(b);
        if i != j { self.nbr[j].push(a); }
        self.edges.push((a, b));
        self.eset.insert(norm((a, b)));
        Ok(())
    }
    /// Graph of a valid adjacency list.
    pub fn from_adj(adj: &[Vec<usize>]) -> Model {
        let mut m = Model::new();
        for i in 0..adj.len() { m.add_node(i).unwrap(); }
        for (i, row) in adj.iter().enumerate() {
            m.nbr[i] = row.clone();
            for &j in row {
                if i <= j { m.edges.push((i, j)); m.eset.insert((i, j)); }
            }
        }
        m
    }
    pub fn from_edges(es: &[(usize, usize)]) -> Model {
        let mut m = Model::new();
        for &(a, b) in es {
            let _ = m.add_node(a);
            let _ = m.add_node(b);
            m.add_edge(a, b).unwrap();
        }
        m
    }
    pub fn adj_idx(&self) -> Vec<Vec<usize>> {
        self.nbr.iter().map(|r| r.iter().map(|x| self.idx[x]).collect()).collect()
    }
    /// Same graph, other ids.
    pub fn relabel(&self, f: &dyn Fn(usize) -> usize) -> Model {
        let mut m = Model::new();
        for &v in &self.nodes { m.add_node(f(v)).expect("injective"); }
        m.nbr = self.nbr.iter().map(|r| r.iter().map(|&x| f(x)).collect()).collect();
        m.edges = self.edges.iter().map(|&(a, b)| (f(a), f(b))).collect();
        m.eset = m.edges.iter().map(|&e| norm(e)).collect();
        m
    }
    pub fn node_set(&self) -> BTreeSet<usize> { self.nodes.iter().cloned().collect() }
    /// Internal sanity of the model itself (harness self-check).
    pub fn sane(&self) -> bool {
        let mut s = 0;
        for (i, r) in self.nbr.iter().enumerate() {
            for &x in r {
                if !self.joined(self.nodes[i], x) { return false; }
                s += if x == self.nodes[i] { 2 } else { 1 };
            }
        }
        s == 2 * self.edges.len() && self.eset.len() == self.edges.len()
    }
    pub fn show(&self) -> String {
        let rows: Vec<String> = self.nodes.iter().zip(&self.nbr)
            .map(|(v, r)| format!("{}:{:?}", v, r)).collect();
        let mut s = format!("{{{}}} edges {:?}", rows.join(" "), self.edges);
        if s.len() > 4000 { s.truncate(4000); s.push_str("..."); }
        s
    }
}

/// Components as lists of indices, each sorted, in order of their first index.
pub fn comps(adj: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let n = adj.len();
    let mut p: Vec<usize> = (0..n).collect();
    fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
        while p[x] != x { p[x] = p[p[x]]; x = p[x]; }
        x
    }
    for i in 0..n {
        for &j in &adj[i] {
            let (a, b) = (find(&mut p, i), find(&mut p, j));
            if a != b { p[a.max(b)] = a.min(b); }
        }
    }
    let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for i in 0..n { let r = find(&mut p, i); by.entry(r).or_default().push(i); }
    let mut out: Vec<Vec<usize>> = by.into_values().collect();
    out.sort();
    out
}

/// Distances from a root by repeated relaxation over levels.
pub fn dist(adj: &[Vec<usize>], root: usize) -> Vec<Option<usize>> {
    let mut d = vec![None; adj.len()];
    d[root] = Some(0);
    let mut level = vec![root];
    let mut k = 0;
    while !level.is_empty() {
        k += 1;
        let mut next = vec![];
        for &v in &level { for &w in &adj[v] { if d[w].is_none() { d[w] = Some(k); next.push(w); } } }
        level = next;
    }
    d
}
