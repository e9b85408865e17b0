//! Independent reference computations, and certificates that let the harness distrust them.
use crate::model::Model;
use std::collections::{BTreeSet, VecDeque};

pub type StepT = (usize, usize, bool);

/// Depth-first steps by the statement of C09, on indices.
pub fn dfs_ref(m: &Model, root: usize) -> Vec<StepT> {
    let adj = m.adj_idx();
    let r = m.idx[&root];
    let mut seen = vec![false; m.n()];
    let mut used: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut out = vec![];
    let mut st = vec![(r, 0usize)];
    seen[r] = true;
    while let Some(top) = st.last_mut() {
        let (v, i) = *top;
        if i == adj[v].len() { st.pop(); continue; }
        top.1 += 1;
        let w = adj[v][i];
        if !used.insert((v.min(w), v.max(w))) { continue; }
        out.push((m.nodes[v], m.nodes[w], seen[w]));
        if !seen[w] { seen[w] = true; st.push((w, 0)); }
    }
    out
}

/// Breadth-first steps by the statement of C11.
pub fn bfs_ref(m: &Model, root: usize) -> Vec<StepT> {
    let adj = m.adj_idx();
    let r = m.idx[&root];
    let mut seen = vec![false; m.n()];
    let mut used: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut out = vec![];
    let mut q = VecDeque::from(vec![r]);
    seen[r] = true;
    while let Some(v) = q.pop_front() {
        for &w in &adj[v] {
            if !used.insert((v.min(w), v.max(w))) { continue; }
            out.push((m.nodes[v], m.nodes[w], seen[w]));
            if !seen[w] { seen[w] = true; q.push_back(w); }
        }
    }
    out
}

const NONE: usize = usize::MAX;

/// Maximum matching (Edmonds, array form with bases), independent of the subject: mates by index,
/// and whether the Tutte-Berge barrier found on the way certifies it.
pub struct Matching { pub mate: Vec<usize>, pub size: usize, pub certified: bool, pub blossoms: u64, pub barrier: usize }

struct Ed<'a> { adj: &'a [Vec<usize>], mate: Vec<usize>, p: Vec<usize>, base: Vec<usize>, used: Vec<bool>, bl: Vec<bool>, blossoms: u64 }

impl<'a> Ed<'a> {
    fn lca(&self, mut a: usize, mut b: usize) -> usize {
        let mut seen = vec![false; self.adj.len()];
        loop {
            a = self.base[a];
            seen[a] = true;
            if self.mate[a] == NONE { break; }
            a = self.p[self.mate[a]];
        }
        loop {
            b = self.base[b];
            if seen[b] { return b; }
            b = self.p[self.mate[b]];
        }
    }
    fn mark(&mut self, mut v: usize, b: usize, mut child: usize) {
        while self.base[v] != b {
            let mv = self.mate[v];
            self.bl[self.base[v]] = true;
            self.bl[self.base[mv]] = true;
            self.p[v] = child;
            child = mv;
            v = self.p[mv];
        }
    }
    /// End of an augmenting path from root, or NONE with `used` = outer nodes of the dead tree.
    fn search(&mut self, root: usize) -> usize {
        let n = self.adj.len();
        self.used = vec![false; n];
        self.p = vec![NONE; n];
        self.base = (0..n).collect();
        self.used[root] = true;
        let mut q = VecDeque::from(vec![root]);
        while let Some(v) = q.pop_front() {
            for k in 0..self.adj[v].len() {
                let to = self.adj[v][k];
                if to == v || self.base[v] == self.base[to] || self.mate[v] == to { continue; }
                if to == root || (self.mate[to] != NONE && self.p[self.mate[to]] != NONE) {
                    self.blossoms += 1;
                    let b = self.lca(v, to);
                    self.bl = vec![false; n];
                    self.mark(v, b, to);
                    self.mark(to, b, v);
                    for i in 0..n {
                        if self.bl[self.base[i]] {
                            self.base[i] = b;
                            if !self.used[i] { self.used[i] = true; q.push_back(i); }
                        }
                    }
                } else if self.p[to] == NONE {
                    self.p[to] = v;
                    if self.mate[to] == NONE { return to; }
                    let w = self.mate[to];
                    self.used[w] = true;
                    q.push_back(w);
                }
            }
        }
        NONE
    }
}

pub fn maximum(adj: &[Vec<usize>]) -> Matching {
    let n = adj.len();
    let mut e = Ed { adj, mate: vec![NONE; n], p: vec![], base: vec![], used: vec![], bl: vec![], blossoms: 0 };
    for v in 0..n {
        if e.mate[v] == NONE { if let Some(&w) = adj[v].iter().find(|&&w| w != v && e.mate[w] == NONE) { e.mate[v] = w; e.mate[w] = v; } }
    }
    for v in 0..n {
        if e.mate[v] != NONE { continue; }
        let mut end = e.search(v);
        while end != NONE {
            let pv = e.p[end];
            let next = e.mate[pv];
            e.mate[end] = pv;
            e.mate[pv] = end;
            end = next;
        }
    }
    let size = e.mate.iter().filter(|&&x| x != NONE).count() / 2;
    // Gallai-Edmonds: D = nodes reachable from an unmatched node by an even alternating path.
    let mut d = vec![false; n];
    for v in 0..n {
        if e.mate[v] == NONE {
            if e.search(v) != NONE { return Matching { mate: e.mate, size, certified: false, blossoms: e.blossoms, barrier: 0 }; }
            for i in 0..n { if e.used[i] { d[i] = true; } }
        }
    }
    let a: Vec<bool> = (0..n).map(|v| !d[v] && adj[v].iter().any(|&w| d[w])).collect();
    let k = a.iter().filter(|&&x| x).count();
    // odd components of G - A
    let mut seen = a.clone();
    let mut odd = 0;
    for s in 0..n {
        if seen[s] { continue; }
        let mut st = vec![s];
        seen[s] = true;
        let mut c = 0;
        while let Some(v) = st.pop() {
            c += 1;
            for &w in &adj[v] { if !seen[w] { seen[w] = true; st.push(w); } }
        }
        odd += c % 2;
    }
    let valid = (0..n).all(|v| e.mate[v] == NONE || (e.mate[e.mate[v]] == v && adj[v].contains(&e.mate[v]) && e.mate[v] != v));
    let certified = valid && n + k >= odd && n - 2 * size + k == odd;
    Matching { mate: e.mate, size, certified, blossoms: e.blossoms, barrier: k }
}

/// Optimum by dynamic programming over node sets (cross-check of the oracle, n <= 20).
pub fn maximum_dp(adj: &[Vec<usize>]) -> usize {
    let n = adj.len();
    let mut f = vec![0u8; 1 << n];
    for x in 1usize..1 << n {
        let i = x.trailing_zeros() as usize;
        let y = x & !(1 << i);
        let mut b = f[y];
        for &j in &adj[i] { if j != i && y >> j & 1 == 1 { b = b.max(1 + f[y & !(1 << j)]); } }
        f[x] = b;
    }
    f[(1 << n) - 1] as usize
}
