//! Reads the counters the compiler put into every code region (-C instrument-coverage).
#[cfg(gmon_cov)]
mod imp {
    extern "C" {
        fn __llvm_profile_begin_counters() -> *const u64;
        fn __llvm_profile_end_counters() -> *const u64;
        fn __llvm_profile_begin_data() -> *const u8;
        fn __llvm_profile_end_data() -> *const u8;
        fn __llvm_profile_begin_names() -> *const u8;
        fn __llvm_profile_end_names() -> *const u8;
    }
    /// Executions of instrumented code regions so far, in this process.
    pub fn regions() -> u64 {
        unsafe {
            let (mut p, e) = (__llvm_profile_begin_counters(), __llvm_profile_end_counters());
            let mut s = 0u64;
            while p < e { s = s.wrapping_add(std::ptr::read_volatile(p)); p = p.add(1); }
            s
        }
    }
    /// All the counters.
    pub fn counters() -> Vec<u64> {
        unsafe {
            let (mut p, e) = (__llvm_profile_begin_counters(), __llvm_profile_end_counters());
            let mut v = Vec::with_capacity(e.offset_from(p) as usize);
            while p < e { v.push(std::ptr::read_volatile(p)); p = p.add(1); }
            v
        }
    }
    /// The functions of the subject: where their counters begin and end. All functions, if the names
    /// cannot be read.
    pub fn subject() -> Vec<(usize, usize)> {
        unsafe {
            let n = __llvm_profile_end_counters().offset_from(__llvm_profile_begin_counters()) as usize;
            known(n).unwrap_or_else(|| (0..n).map(|i| (i, i + 1)).collect())
        }
    }
    /// Names are a list of blocks: length unpacked, length packed (none), names with \x01 between; a
    /// function's record begins with the hash of its name and has, third, the way to its counters.
    unsafe fn known(n: usize) -> Option<Vec<(usize, usize)>> {
        let names = std::slice::from_raw_parts(__llvm_profile_begin_names(), __llvm_profile_end_names().offset_from(__llvm_profile_begin_names()) as usize);
        let mut ours = std::collections::HashSet::new();
        let mut p = 0;
        let number = |p: &mut usize| -> Option<usize> {
            let (mut x, mut s) = (0usize, 0);
            loop { let b = *names.get(*p)?; *p += 1; x |= ((b & 127) as usize) << s; s += 7; if b < 128 || s > 56 { return Some(x); } }
        };
        while p < names.len() {
            if names[p] == 0 { p += 1; continue; }
            let (long, packed) = (number(&mut p)?, number(&mut p)?);
            if packed != 0 || p + long > names.len() { return None; }
            for s in names[p..p + long].split(|&b| b == 1) {
                let s = String::from_utf8_lossy(s);
                let (a, b) = (s.find("5gamma").or(s.find("gamma..")), s.find("4gmon").or(s.find("gmon..")));
                if a.is_some() && (b.is_none() || a < b) { ours.insert(super::md5(s.as_bytes())); }
            }
            p += long;
        }
        let (first, last) = (__llvm_profile_begin_data(), __llvm_profile_end_data());
        let bytes = last.offset_from(first) as usize;
        let base = __llvm_profile_begin_counters() as usize;
        let word = |at: usize| std::ptr::read_unaligned(first.add(at) as *const u64);
        for size in (40..160).step_by(8) {
            if bytes % size != 0 { continue; }
            let at: Vec<(usize, u64)> = (0..bytes / size).map(|i| (((first as usize + i * size).wrapping_add(word(i * size + 16) as usize)).wrapping_sub(base), word(i * size))).collect();
            if at.iter().any(|x| x.0 % 8 != 0 || x.0 / 8 >= n) { continue; }
            let mut begins: Vec<usize> = at.iter().map(|x| x.0 / 8).collect();
            begins.push(n);
            begins.sort();
            begins.dedup();
            let mut v: Vec<(usize, usize)> = at.iter().filter(|x| ours.contains(&x.1)).map(|x| { let i = begins.binary_search(&(x.0 / 8)).unwrap(); (begins[i], begins[i + 1]) }).collect();
            v.sort();
            v.dedup();
            return if v.is_empty() { None } else { Some(v) };
        }
        None
    }
    pub fn read(ranges: &[(usize, usize)], out: &mut Vec<u64>) {
        out.clear();
        let p = unsafe { __llvm_profile_begin_counters() };
        for &(a, b) in ranges { for i in a..b { out.push(unsafe { std::ptr::read_volatile(p.add(i)) }); } }
    }
    pub const ON: bool = true;
}
#[cfg(not(gmon_cov))]
mod imp {
    pub fn regions() -> u64 { 0 }
    pub fn counters() -> Vec<u64> { vec![] }
    pub fn subject() -> Vec<(usize, usize)> { vec![] }
    pub fn read(_: &[(usize, usize)], out: &mut Vec<u64>) { out.clear() }
    pub const ON: bool = false;
}
pub use imp::*;

use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};
/// Memory shared with child processes, in which they add up what they execute of the subject.
static SHARED: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
extern "C" { fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
pub struct Watch { at: &'static [(usize, usize)], own: Vec<u64> }
impl Watch {
    /// What the process executes from here on.
    pub fn start() -> Watch {
        static AT: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
        let mut w = Watch { at: AT.get_or_init(subject), own: vec![] };
        read(w.at, &mut w.own);
        w
    }
    pub fn functions(&self) -> &'static [(usize, usize)] { self.at }
    /// From now on child processes report as well.
    pub fn share(&self) {
        if SHARED.load(SeqCst).is_null() {
            let p = unsafe { mmap(std::ptr::null_mut(), self.own.len() * 8 + 8, 3, 0x21, -1, 0) };
            assert!(p as isize != -1, "mmap");
            SHARED.store(p.cast(), SeqCst);
        }
        for i in 0..self.own.len() { unsafe { SHARED.load(SeqCst).add(i).write_volatile(0) } }
    }
    /// Executions since the start (or the last call), those of child processes included.
    pub fn lap(&mut self, out: &mut Vec<u64>) {
        read(self.at, out);
        let p = SHARED.load(SeqCst);
        for i in 0..out.len() {
            let x = out[i];
            out[i] = x.wrapping_sub(self.own[i]);
            if !p.is_null() { unsafe { out[i] = out[i].wrapping_add(p.add(i).read_volatile()); p.add(i).write_volatile(0); } }
            self.own[i] = x;
        }
    }
    /// In a child process, from before its work.
    pub fn begin() -> Option<Watch> { if SHARED.load(SeqCst).is_null() { None } else { Some(Watch::start()) } }
    pub fn end(self) {
        let mut now = vec![];
        read(self.at, &mut now);
        let p = SHARED.load(SeqCst);
        for i in 0..now.len() { unsafe { let q = p.add(i); q.write_volatile(q.read_volatile().wrapping_add(now[i].wrapping_sub(self.own[i]))); } }
    }
}

/// The first half of MD5, as the compiler names functions by.
pub fn md5(b: &[u8]) -> u64 {
    let rot = [[7u32, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    let mut m = b.to_vec();
    m.push(128);
    while m.len() % 64 != 56 { m.push(0); }
    m.extend_from_slice(&(b.len() as u64 * 8).to_le_bytes());
    for block in m.chunks(64) {
        let w: Vec<u32> = block.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let [mut a, mut b, mut c, mut d] = h;
        for i in 0..64 {
            let (f, g) = match i / 16 { 0 => ((b & c) | (!b & d), i), 1 => ((d & b) | (!d & c), (5 * i + 1) % 16), 2 => (b ^ c ^ d, (3 * i + 5) % 16), _ => (c ^ (b | !d), (7 * i) % 16) };
            let k = (((i + 1) as f64).sin().abs() * 4294967296.0) as u32;
            let f = f.wrapping_add(a).wrapping_add(k).wrapping_add(w[g]);
            a = d; d = c; c = b;
            b = b.wrapping_add(f.rotate_left(rot[i / 16][i % 4]));
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d]) { *x = x.wrapping_add(y); }
    }
    h[0] as u64 | (h[1] as u64) << 32
}
