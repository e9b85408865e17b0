//! C22: no hidden state, no interference. A history over several graphs runs in a process of its own;
//! every observation it makes is repeated by a fresh process that knows only the content at that time.
use crate::ctx::{self, Ctx, R};
use crate::gen::{self, Op};
use crate::model::{norm, Model};
use crate::props::graph::snap;
use crate::props::matching::pairing_views;
use crate::rng::{mix, Key, Rng};
use gamma::graph::{DefaultGraph, Error, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

// ------------------------------------------------------------- what can be observed

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ob { Snap, Has(usize, usize), Dfs(usize), Bfs(usize), Comps, Table(usize), FromDfs(usize), Greedy, Max(Vec<(usize, usize)>), EqRebuilt }

fn text(s: String) -> String {
    let mut k = Key::new();
    for b in s.bytes() { k.add(b as u64); }
    let mut t = s;
    if t.len() > 160 { let mut e = 160; while !t.is_char_boundary(e) { e -= 1; } t.truncate(e); t.push_str(&format!("..#{:016x}", k.get())); }
    t.replace('\n', " ")
}
fn views(p: &Pairing, g: &impl Graph) -> String {
    let mut es: Vec<_> = p.edges().collect();
    es.sort();
    let mut seen = std::collections::BTreeSet::new();
    let ok = es.iter().all(|&(a, b)| a < b && seen.insert(a) && seen.insert(b) && g.has_edge(a, b) == Ok(true) && p.has_node(a) && p.mate(a) == b && p.mate(b) == a) && p.order() == 2 * es.len();
    format!("{}", if ok { "valid" } else { "invalid" })
}
/// Computes one observation; a panic is an outcome too.
pub fn outcome<G: Graph>(g: &G, ob: &Ob, ops: &[Op]) -> String {
    let lim = 2 * g.size() + g.order() + 16;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match ob {
        Ob::Snap => { let n: Vec<usize> = g.nodes().collect(); format!("{:?} {:?} {:?} {} {} {}", n, n.iter().map(|&v| g.neighbors(v).map(|i| i.collect::<Vec<_>>())).collect::<Vec<_>>(), g.edges().collect::<Vec<_>>(), g.size(), g.order(), g.is_empty()) }
        Ob::Has(a, b) => format!("{:?} {} {} {:?}", g.has_edge(*a, *b), g.has_node(*a), g.has_node(*b), g.degree(*a)),
        Ob::Dfs(r) => format!("{:?}", DepthFirst::new(g, *r).map(|i| i.take(lim).collect::<Vec<_>>())),
        Ob::Bfs(r) => format!("{:?}", BreadthFirst::new(g, *r).map(|i| i.take(lim).collect::<Vec<_>>())),
        Ob::Comps => format!("{:?}", components(g).take(lim).map(|c| (c.nodes().collect::<Vec<_>>(), c.edges().collect::<Vec<_>>())).collect::<Vec<_>>()),
        Ob::Table(r) => format!("{:?}", DepthFirst::new(g, *r).map(|i| i.into_table())),
        Ob::FromDfs(r) => match DepthFirst::new(g, *r) { Ok(t) => format!("{:?}", DefaultGraph::try_from(t).map(|h| (h.nodes().collect::<Vec<_>>(), h.edges().collect::<Vec<_>>()))), Err(e) => format!("{:?}", e) },
        Ob::Greedy => { let p = greedy(g); views(&p, g) }
        Ob::Max(s) => { let mut p = Pairing::new(); for &(a, b) in s { p.pair(a, b); } maximum_matching(g, &mut p); format!("{} {}", views(&p, g), p.edges().count()) }
        Ob::EqRebuilt => { let h = make(ops); format!("{:?} {:?}", h.nodes().eq(g.nodes()), h.edges().eq(g.edges())) }
    }));
    text(match r { Ok(s) => s, Err(_) => "panic".into() })
}
fn put(g: &mut DefaultGraph, op: Op) -> Result<(), Error> { match op { Op::Node(v) => g.add_node(v), Op::Edge(a, b) => g.add_edge(a, b) } }
pub fn make(ops: &[Op]) -> DefaultGraph { let mut g = DefaultGraph::new(); for &o in ops { let _ = put(&mut g, o); } g }

// ------------------------------------------------------------- histories

/// A planned event. Observations carry their number.
#[derive(Clone, Debug)]
pub enum Ev {
    Op(usize, Op),
    See(usize, Ob, usize),
    /// Drop graph and build this one in its place.
    Replace(usize, Vec<Op>),
    /// A traversal of graph `g` interrupted by other events.
    Meanwhile { g: usize, ob: Ob, no: usize, parts: Vec<(usize, Vec<Ev>)> },
    /// Threads sharing all graphs.
    Threads(Vec<Vec<(usize, Ob, usize)>>),
}
pub struct Plan { pub start: Vec<Vec<Op>>, pub evs: Vec<Ev>, pub what: Vec<(Vec<Op>, Ob)> }

struct Maker<'a> { r: &'a mut Rng, ops: Vec<Vec<Op>>, models: Vec<Model>, what: Vec<(Vec<Op>, Ob)>, pool: Vec<usize> }
impl<'a> Maker<'a> {
    fn ob(&mut self, g: usize) -> Ob {
        let m = &self.models[g];
        let r = &mut *self.r;
        let any = |r: &mut Rng, m: &Model, pool: &[usize]| if m.n() > 0 && r.pct(95) { *r.pick(&m.nodes) } else { *r.pick(pool) };
        match r.below(12) {
            0 => Ob::Snap,
            1 => { let (a, b) = (any(r, m, &self.pool), any(r, m, &self.pool)); Ob::Has(a, b) }
            2 | 3 => Ob::Dfs(any(r, m, &self.pool)),
            4 | 5 => Ob::Bfs(any(r, m, &self.pool)),
            6 => Ob::Comps,
            7 => Ob::Table(any(r, m, &self.pool)),
            8 => Ob::FromDfs(any(r, m, &self.pool)),
            9 => Ob::Greedy,
            // from little, or (large graphs, for time) from a maximal matching
            10 => { let part = if m.n() > 150 { 100 } else { 30 }; let mut s = vec![]; let mut u = std::collections::BTreeSet::new(); for &(a, b) in &m.edges { if a != b && r.pct(part) && !u.contains(&a) && !u.contains(&b) { u.insert(a); u.insert(b); s.push((a, b)); } } Ob::Max(s) }
            _ => Ob::EqRebuilt,
        }
    }
    fn see(&mut self, g: usize) -> Ev { let ob = self.ob(g); self.numbered(g, ob) }
    fn number(&mut self, g: usize, ob: &Ob) -> usize { self.what.push((self.ops[g].clone(), ob.clone())); self.what.len() - 1 }
    fn numbered(&mut self, g: usize, ob: Ob) -> Ev { let n = self.number(g, &ob); Ev::See(g, ob, n) }
    fn choose(&mut self, g: usize) -> Op {
        let r = &mut *self.r;
        let m = &self.models[g];
        if r.pct(30) || m.n() < 2 { Op::Node(*r.pick(&self.pool)) } else { Op::Edge(*r.pick(&m.nodes), *r.pick(&m.nodes)) }
    }
    fn make(&mut self, g: usize, op: Op) -> Ev {
        let _ = match op { Op::Node(v) => self.models[g].add_node(v), Op::Edge(a, b) => self.models[g].add_edge(a, b) };
        self.ops[g].push(op);
        Ev::Op(g, op)
    }
    fn op(&mut self, g: usize) -> Ev { let op = self.choose(g); self.make(g, op) }
    /// What an insertion concerns, observed right before and right after it.
    fn around(&mut self, g: usize) -> Vec<Ev> {
        let op = self.choose(g);
        let (a, b) = match op { Op::Edge(a, b) => (a, b), Op::Node(v) => (v, if self.models[g].n() > 0 && self.r.pct(70) { *self.r.pick(&self.models[g].nodes) } else { *self.r.pick(&self.pool) }) };
        let (a, b) = if self.r.pct(50) { (a, b) } else { (b, a) };
        let ob = match self.r.below(10) { 0..=4 => Ob::Has(a, b), 5 => Ob::Dfs(a), 6 => Ob::Bfs(a), 7 => Ob::Snap, 8 => Ob::Table(a), _ => self.ob(g) };
        let mut evs = vec![self.numbered(g, ob.clone()), self.make(g, op), self.numbered(g, ob)];
        if self.r.pct(30) { evs.push(self.numbered(g, Ob::Has(b, a))); }
        evs
    }
    /// Another content with the same numbers of nodes and edges, or the same again, or nearly so.
    fn twin(&mut self, of: usize) -> Vec<Op> {
        let m = self.models[of].clone();
        let r = &mut *self.r;
        let mut nodes = m.nodes.clone();
        let mut edges = m.edges.clone();
        match r.below(4) {
            0 => {}
            1 => { r.shuffle(&mut edges); for e in edges.iter_mut() { if r.pct(50) { *e = (e.1, e.0) } } }
            2 => { let mut perm = nodes.clone(); r.shuffle(&mut perm); let f: BTreeMap<usize, usize> = nodes.iter().cloned().zip(perm).collect(); for e in edges.iter_mut() { *e = (f[&e.0], f[&e.1]); } }
            _ => { if !nodes.is_empty() && !edges.is_empty() {
                for _ in 0..20 { let e = (*r.pick(&nodes), *r.pick(&nodes)); if !edges.iter().any(|&x| norm(x) == norm(e)) { let p = r.below(edges.len()); edges[p] = e; break; } }
            } }
        }
        if r.pct(30) { r.shuffle(&mut nodes); }
        nodes.into_iter().map(Op::Node).chain(edges.into_iter().map(|(a, b)| Op::Edge(a, b))).collect()
    }
    fn replace(&mut self, g: usize) -> Ev {
        let of = self.r.below(self.models.len());
        let ops = self.twin(of);
        self.set(g, ops.clone());
        Ev::Replace(g, ops)
    }
    fn set(&mut self, g: usize, ops: Vec<Op>) {
        let mut m = Model::new();
        for o in &ops { let _ = match *o { Op::Node(v) => m.add_node(v), Op::Edge(a, b) => m.add_edge(a, b) }; }
        self.models[g] = m;
        self.ops[g] = ops;
    }
}

pub fn plan(r: &mut Rng, len: usize, threads: bool, top: usize) -> Plan {
    let k = r.range(2, 4);
    let max = if top > 110 { top } else { top.min(*r.pick(&[4, 7, 7, 12, 12, 20, 20, 40, 40, 110])) };
    let s = gen::shape(r, max);
    let (l, _) = gen::labels(r, s.n);
    let base: Vec<Op> = (0..s.n).map(|i| Op::Node(l[i])).chain(s.edges.iter().map(|&(a, b)| Op::Edge(l[a], l[b]))).collect();
    let mut pool = l.clone();
    for _ in 0..4 { pool.push(r.below(40)); }
    let mut mk = Maker { r, ops: vec![vec![]; k], models: vec![Model::new(); k], what: vec![], pool };
    mk.set(0, base);
    for g in 1..k { let ops = mk.twin(0); mk.set(g, ops); }
    let start = mk.ops.clone();
    let mut evs = vec![];
    while evs.len() < len {
        let g = mk.r.below(k);
        let x = mk.r.below(100);
        if x < 45 { let e = mk.see(g); evs.push(e); }
        else if x < 55 { // the same observation on two graphs
            let ob = mk.ob(g);
            let h = mk.r.below(k);
            let e = mk.numbered(g, ob.clone());
            let f = mk.numbered(h, ob.clone());
            evs.push(e); evs.push(f);
            if mk.r.pct(50) { let o = mk.op(g); evs.push(o); let e = mk.numbered(g, ob); evs.push(e); }
        }
        else if x < 64 { evs.extend(mk.around(g)); }
        else if x < 72 { let e = mk.op(g); evs.push(e); }
        else if x < 82 { let e = mk.replace(g); evs.push(e); }
        else {
            let m = &mk.models[g];
            if m.n() == 0 { continue; }
            let root = *mk.r.pick(&m.nodes);
            let ob = match mk.r.below(3) { 0 => Ob::Dfs(root), 1 => Ob::Bfs(root), _ => Ob::Comps };
            let no = mk.number(g, &ob);
            let mut parts = vec![];
            for _ in 0..mk.r.range(1, 4) {
                let n = mk.r.below(4);
                let h = mk.r.below(k);
                let e = if h == g || mk.r.pct(60) { mk.see(h) } else if mk.r.pct(60) { mk.op(h) } else { mk.replace(h) };
                parts.push((n, vec![e]));
            }
            evs.push(Ev::Meanwhile { g, ob, no, parts });
        }
    }
    if threads {
        let t = mk.r.range(2, 4);
        let mut ts = vec![];
        let shared: Vec<(usize, Ob)> = (0..3).map(|_| { let g = mk.r.below(k); (g, mk.ob(g)) }).collect();
        for _ in 0..t {
            let mut obs = vec![];
            for _ in 0..mk.r.range(2, 6) {
                if mk.r.pct(50) { let (g, ob) = mk.r.pick(&shared).clone(); let n = mk.number(g, &ob); obs.push((g, ob, n)); }
                else { let g = mk.r.below(k); if let Ev::See(g, ob, n) = mk.see(g) { obs.push((g, ob, n)); } }
            }
            ts.push(obs);
        }
        evs.push(Ev::Threads(ts));
        for g in 0..k { let e = mk.numbered(g, Ob::Snap); evs.push(e); }
    }
    Plan { start, evs, what: mk.what }
}

/// The same few observations thousands of times in one process, with few changes in between.
pub fn soak(r: &mut Rng) -> Plan {
    let mut p = plan(r, 0, false, 12);
    let k = p.start.len();
    let mut mk = Maker { r, ops: p.start.clone(), models: vec![Model::new(); k], what: vec![], pool: vec![0, 1, 2, 3] };
    for g in 0..k { let o = mk.ops[g].clone(); mk.set(g, o); }
    let mut obs: Vec<(usize, Ob)> = (0..24).map(|_| { let g = mk.r.below(k); (g, mk.ob(g)) }).collect();
    let some = mk.r.range(4, 24);
    obs.truncate(some);
    let total = mk.r.range(1000, 6000);
    while p.evs.len() < total {
        if mk.r.below(2000) == 0 { let g = mk.r.below(k); let e = if mk.r.pct(50) { mk.op(g) } else { mk.replace(g) }; p.evs.push(e); }
        let (g, ob) = mk.r.pick(&obs).clone();
        let e = mk.numbered(g, ob);
        p.evs.push(e);
    }
    p.what = mk.what;
    p
}

/// A graph shared by threads whose queries take a random time; it logs who asked when.
pub struct Jitter<'a> { g: &'a DefaultGraph, state: std::cell::Cell<u64>, clock: &'a AtomicU64, ticks: std::cell::RefCell<Vec<u64>> }
impl<'a> Jitter<'a> {
    fn hit(&self) {
        let x = mix(self.state.get());
        self.state.set(x);
        match x % 8 { 0 => std::thread::yield_now(), 1 => for _ in 0..x >> 8 & 127 { std::hint::spin_loop() }, _ => {} }
        let mut t = self.ticks.borrow_mut();
        if t.len() < 512 { t.push(self.clock.fetch_add(1, Relaxed)); }
    }
}
impl<'a> Graph for Jitter<'a> {
    fn is_empty(&self) -> bool { self.hit(); self.g.is_empty() }
    fn order(&self) -> usize { self.hit(); self.g.order() }
    fn size(&self) -> usize { self.hit(); self.g.size() }
    fn nodes(&self) -> Box<dyn Iterator<Item = usize> + '_> { self.hit(); self.g.nodes() }
    fn neighbors(&self, id: usize) -> Result<Box<dyn Iterator<Item = usize> + '_>, Error> { self.hit(); self.g.neighbors(id) }
    fn has_node(&self, id: usize) -> bool { self.hit(); self.g.has_node(id) }
    fn degree(&self, id: usize) -> Result<usize, Error> { self.hit(); self.g.degree(id) }
    fn edges(&self) -> Box<dyn Iterator<Item = (usize, usize)> + '_> { self.hit(); self.g.edges() }
    fn has_edge(&self, s: usize, t: usize) -> Result<bool, Error> { self.hit(); self.g.has_edge(s, t) }
}
/// Shares graphs with threads even if the type says it must not be: a separate probe reports that.
pub struct Shared<'a, T>(pub &'a [T]);
unsafe impl<'a, T> Sync for Shared<'a, T> {}
unsafe impl<'a, T> Send for Shared<'a, T> {}
impl<'a, T> Shared<'a, T> {
    fn get(&self, i: usize) -> &'a T { &self.0[i] }
    pub fn all(&self) -> &'a [T] { self.0 }
}

/// Can a DefaultGraph be shared and sent? (Answers `false` instead of failing to compile.)
pub fn shareable() -> (bool, bool) {
    #[allow(dead_code)]
    trait No { const YES: bool = false; }
    struct S<T>(std::marker::PhantomData<T>);
    struct D<T>(std::marker::PhantomData<T>);
    impl<T> No for S<T> {}
    impl<T> No for D<T> {}
    #[allow(dead_code)]
    impl<T: Sync> S<T> { const YES: bool = true; }
    #[allow(dead_code)]
    impl<T: Send> D<T> { const YES: bool = true; }
    (<S<DefaultGraph>>::YES, <D<DefaultGraph>>::YES)
}

/// Executes a history; `out` receives (observation number, outcome).
pub fn execute(p: &Plan, seed: u64, out: &mut dyn FnMut(usize, String)) -> u64 {
    let mut gs: Vec<DefaultGraph> = p.start.iter().map(|o| make(o)).collect();
    let mut logs: Vec<Vec<Op>> = p.start.clone();
    let mut sig = Key::new();
    for e in &p.evs { event(e, &mut gs, &mut logs, seed, out, &mut sig); }
    sig.get()
}
fn event(e: &Ev, gs: &mut Vec<DefaultGraph>, logs: &mut Vec<Vec<Op>>, seed: u64, out: &mut dyn FnMut(usize, String), sig: &mut Key) {
    match e {
        Ev::Op(g, op) => { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = put(&mut gs[*g], *op); })); logs[*g].push(*op); }
        Ev::See(g, ob, n) => out(*n, outcome(&gs[*g], ob, &logs[*g])),
        Ev::Replace(g, ops) => { gs[*g] = DefaultGraph::new(); gs[*g] = make(ops); logs[*g] = ops.clone(); }
        Ev::Meanwhile { g, ob, no, parts } => {
            let own = std::mem::replace(&mut gs[*g], DefaultGraph::new());
            // inner observations of the same graph look at it through the same reference
            let lim = 2 * own.size() + own.order() + 16;
            let log = logs[*g].clone();
            macro_rules! run { ($open:expr, $item:expr, $wrap:expr) => {{
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut v = vec![];
                    let mut it = $open;
                    for (k, evs) in parts {
                        for _ in 0..*k { if let Some(x) = it.next() { v.push($item(x)); } }
                        for e in evs { match e { Ev::See(h, ob, n) if h == g => out(*n, outcome(&own, ob, &log)), e => event(e, gs, logs, seed, out, sig) } }
                    }
                    while v.len() < lim { match it.next() { Some(x) => v.push($item(x)), None => break } }
                    $wrap(v)
                }));
                out(*no, text(r.unwrap_or_else(|_| "panic".into())));
            }} }
            let id = |s| s;
            match ob {
                Ob::Dfs(r) => run!(DepthFirst::new(&own, *r).unwrap(), id, |v| format!("{:?}", Ok::<_, Error>(v))),
                Ob::Bfs(r) => run!(BreadthFirst::new(&own, *r).unwrap(), id, |v| format!("{:?}", Ok::<_, Error>(v))),
                _ => run!(components(&own), |c: DefaultGraph| (c.nodes().collect::<Vec<_>>(), c.edges().collect::<Vec<_>>()), |v| format!("{:?}", v)),
            }
            gs[*g] = own;
        }
        Ev::Threads(ts) => {
            let sh = Shared(gs);
            let clock = AtomicU64::new(0);
            let go = AtomicU64::new(0);
            let logs = &*logs;
            let res: Vec<(Vec<(usize, String)>, Vec<u64>)> = std::thread::scope(|s| {
                let hs: Vec<_> = ts.iter().enumerate().map(|(t, obs)| {
                    let (sh, clock, go) = (&sh, &clock, &go);
                    s.spawn(move || {
                        go.fetch_add(1, Relaxed);
                        while go.load(Relaxed) < ts.len() as u64 { std::thread::yield_now(); }
                        let mut res = vec![];
                        let mut ticks = vec![];
                        for (i, (g, ob, n)) in obs.iter().enumerate() {
                            let g0 = sh.get(*g);
                            if i % 2 == 0 {
                                let j = Jitter { g: g0, state: std::cell::Cell::new(mix(seed ^ (t * 100 + i) as u64)), clock, ticks: Default::default() };
                                res.push((*n, outcome(&j, ob, &logs[*g])));
                                ticks.extend(j.ticks.into_inner());
                            } else { res.push((*n, outcome(g0, ob, &logs[*g]))); ticks.push(clock.fetch_add(1, Relaxed)); }
                        }
                        (res, ticks)
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
            });
            let mut order: Vec<(u64, usize)> = res.iter().enumerate().flat_map(|(t, (_, k))| k.iter().map(move |&x| (x, t))).collect();
            order.sort();
            for (_, t) in order { sig.add(t as u64); }
            for (r, _) in res { for (n, o) in r { out(n, o); } }
        }
    }
}

// ------------------------------------------------------------- processes

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut core::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, b: *const core::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn poll(fds: *mut [i32; 2], n: u64, ms: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}
/// Runs `f` in a child process; gives what it wrote, and how it ended ("" if normally).
fn isolated(f: impl FnOnce(&mut dyn FnMut(&str))) -> (String, String) {
    unsafe {
        let mut fd = [0i32; 2];
        assert!(pipe(fd.as_mut_ptr()) == 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            ctx::SLOT.store(std::ptr::null_mut(), std::sync::atomic::Ordering::SeqCst);
            setrlimit(0, &[60, 70]);
            setrlimit(4, &[0, 0]);
            let w = fd[1];
            let watch = crate::cov::Watch::begin();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut |s: &str| { let mut b = s.as_bytes(); while !b.is_empty() { let k = write(w, b.as_ptr().cast(), b.len()); if k <= 0 { break; } b = &b[k as usize..]; } })));
            if let Some(w) = watch { w.end(); }
            crate::mem::_exit(if r.is_ok() { 0 } else { 99 });
        }
        close(fd[1]);
        let mut buf = vec![];
        let mut chunk = [0u8; 4096];
        let (mut still, mut stuck) = (0, false);
        loop {
            // {fd, events: POLLIN}
            if poll(&mut [fd[0], 1], 1, 500) == 0 {
                still = if ctx::runnable(&pid.to_string()) { 0 } else { still + 1 };
                if still == 30 { stuck = true; kill(pid, 9); }
                continue;
            }
            still = 0;
            let k = read(fd[0], chunk.as_mut_ptr().cast(), chunk.len()); if k <= 0 { break; } buf.extend_from_slice(&chunk[..k as usize]);
        }
        close(fd[0]);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        assert!(st >> 8 & 255 != 99 || st & 127 != 0, "harness panic in child");
        (String::from_utf8_lossy(&buf).into_owned(), if stuck { "waiting for ever (deadlock)".into() } else if st == 0 { String::new() } else if st & 127 != 0 { format!("signal {}", st & 127) } else { format!("exit {}", st >> 8 & 255) })
    }
}

pub fn len(t: bool) -> u64 { if t { 150_000 } else { 12_000 } }
pub fn c22(c: &mut Ctx) -> R {
    let (sync, send) = shareable();
    ensure!(sync, "DefaultGraph cannot be shared between threads (not Sync)");
    ensure!(send, "DefaultGraph cannot be moved to another thread (not Send)");
    let mut r = c.rng.clone();
    let threads = c.idx % 2 == 1;
    let len = if c.idx % 40 == 38 { r.range(60, 250) } else if threads { r.range(0, 3) } else { r.range(3, 16) };
    let long_run = c.idx % 250 == 124;
    let large = !long_run && len <= 16 && c.idx % 100 >= 97;
    let top = if large { *r.pick(&[300, 600, 1200]) } else if len > 60 { 20 } else { 110 };
    let p = if long_run { soak(&mut r) } else { plan(&mut r, len, threads, top) };
    let seed = c.seed ^ mix(c.idx);
    let (txt, end) = isolated(|w| { let s = execute(&p, seed, &mut |n, o| w(&format!("{}\t{}\n", n, o))); w(&format!("sig\t{}\n", s)); });
    let mut got: BTreeMap<usize, String> = BTreeMap::new();
    let mut sig = 0;
    let mut order = vec![];
    for l in txt.lines() {
        if let Some((a, b)) = l.split_once('\t') { if a == "sig" { sig = b.parse().unwrap_or(0); } else if let Ok(n) = a.parse() { got.insert(n, b.to_string()); order.push(n); } }
    }
    let show = || { let mut s = format!("graphs {:?}\nhistory {:?}", p.start, p.evs); if s.len() > 20_000 { s.truncate(20_000); s.push_str("..."); } s };
    let mut memo: BTreeMap<u64, String> = BTreeMap::new();
    for n in 0..p.what.len() {
        let (ops, ob) = &p.what[n];
        let mut k = Key::new();
        for o in ops { match *o { Op::Node(v) => k.add(1).add(v as u64), Op::Edge(a, b) => k.add(2).add(a as u64).add(b as u64) }; }
        for b in format!("{:?}", ob).bytes() { k.add(b as u64); }
        let fresh = memo.entry(k.get()).or_insert_with(|| {
            c.counters.entry("fresh_processes").and_modify(|x| *x += 1).or_insert(1);
            let (t, end) = isolated(|w| { let g = make(ops); w(&outcome(&g, ob, ops)); });
            if end.is_empty() { t } else { format!("ended by {}", end) }
        }).clone();
        let mine = got.get(&n).cloned();
        match mine {
            Some(m) => {
                if m != fresh { return Err(ctx::Fail::v(format!("{:?} on the content {:?}: {} in the history, {} in a fresh process", ob, ops, m, fresh)).with(show)); }
                c.count(if threads { "concurrent_observations" } else { "observations" }, 1);
                let mut kk = k; kk.add(sig); c.keys.push(kk.get());
                c.evals += 1;
            }
            None => {
                // planned but not made: the history's process ended here or earlier
                ensure!(!end.is_empty(), "observation {} missing", n);
                if fresh.starts_with("ended by") { return Ok(()); }
                // find out whether anything in a fresh process ends likewise; only then is the end no business of C22
                for (ops, ob) in &p.what[n..] { let (_, e) = isolated(|w| { let g = make(ops); w(&outcome(&g, ob, ops)); }); if !e.is_empty() { return Ok(()); } }
                return Err(ctx::Fail::v(format!("the history's process ended by {} although every observation alone returns", end)).with(show));
            }
        }
    }
    c.count("histories", 1);
    if large { c.count("histories_of_large_graphs", 1); }
    c.max("most_insertions_in_one_content", p.what.iter().map(|w| w.0.len()).max().unwrap_or(0) as u64);
    if long_run { c.count("long_runs", 1); c.max("longest_history", p.evs.len() as u64); }
    if threads { let mut k = Key::new(); k.add(sig); c.count("threaded_histories", 1); }
    let sh = show();
    c.sample(|| sh);
    Ok(())
}

/// Threaded part without processes or comparison, for ThreadSanitizer.
pub fn races(seed: u64, i: u64) -> (u64, u64) {
    let mut r = Rng::new(seed, 22_000, i);
    let p = plan(&mut r, 0, true, 20);
    let mut n = 0;
    let s = execute(&p, seed ^ mix(i), &mut |_, _| n += 1);
    (n, s)
}
#[allow(dead_code)]
fn _keep(p: &Pairing, g: &DefaultGraph) { let _ = pairing_views(p, &[], &[]); let _ = snap(g); }
