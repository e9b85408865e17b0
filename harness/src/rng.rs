//! Small deterministic generator; every random choice of a case comes from (seed, property, case), or
//! from a recorded list of choices.
use std::cell::RefCell;

#[derive(Clone)]
pub struct Rng { state: u64, taped: bool }

/// The choices of a run: first those given, then fresh ones.
struct Tape { draws: Vec<u64>, at: usize, fresh: u64 }
thread_local! { static TAPE: RefCell<Tape> = const { RefCell::new(Tape { draws: vec![], at: 0, fresh: 0 }) }; }
/// How many choices are kept; later ones are always fresh.
const LONGEST: usize = 1 << 16;
/// Recording allocates nothing: some properties count that.
pub fn load(draws: &[u64], fresh: u64) { TAPE.with(|t| { let t = &mut *t.borrow_mut(); t.draws.clear(); t.draws.reserve(LONGEST); t.draws.extend_from_slice(&draws[..draws.len().min(LONGEST)]); t.at = 0; t.fresh = fresh; }) }
/// The choices made since `load`.
pub fn unload() -> Vec<u64> { TAPE.with(|t| { let t = t.borrow(); t.draws[..t.at].to_vec() }) }
fn turn() -> u64 {
    TAPE.with(|t| {
        let t = &mut *t.borrow_mut();
        if t.at == t.draws.len() || t.at >= LONGEST {
            t.fresh = t.fresh.wrapping_add(0x9E3779B97F4A7C15);
            let x = mix(t.fresh);
            if t.at < LONGEST { t.draws.push(x); t.at += 1; }
            return x;
        }
        t.at += 1;
        t.draws[t.at - 1]
    })
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Self {
        Rng { state: mix(mix(mix(a) ^ b.wrapping_mul(0xA24BAED4963EE407)) ^ c.wrapping_mul(0x9FB21C651E98DF25)), taped: false }
    }
    /// Takes its choices, and those of its clones, from the tape of the thread.
    pub fn taped() -> Self { Rng { state: 0, taped: true } }
    pub fn u64(&mut self) -> u64 {
        if self.taped { return turn(); }
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.state)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (((self.u64() >> 32) * (n as u64)) >> 32) as usize
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn pct(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// FNV-style hash used to count distinct cases.
#[derive(Clone, Copy)]
pub struct Key(u64);
impl Key {
    pub fn new() -> Self { Key(0xcbf29ce484222325) }
    pub fn add(&mut self, x: u64) -> &mut Self { self.0 = mix(self.0 ^ x).wrapping_mul(0x100000001b3); self }
    pub fn get(&self) -> u64 { self.0 }
}
