pub mod graph;
pub mod trav;
pub mod matching;
pub mod iface;
pub mod pure;
pub mod bound;
pub mod memory;

use crate::ctx::{Ctx, R};
pub type Case = fn(&mut Ctx) -> R;
pub type Len = fn(bool) -> u64;

/// Property, number of cases (thorough?), one case.
pub fn table() -> Vec<(&'static str, Len, Case)> {
    vec![
        ("C01", graph::len_hist, graph::c01),
        ("C02", graph::len02, graph::c02),
        ("C03", graph::len_hist, graph::c03),
        ("C04", graph::len_hist, graph::c04),
        ("C05", graph::len05, graph::c05),
        ("C06", graph::len06, graph::c06),
        ("C07", graph::len07, graph::c07),
        ("C08", trav::len, trav::c08),
        ("C09", trav::len, trav::c09),
        ("C10", trav::len, trav::c10),
        ("C11", trav::len, trav::c11),
        ("C12", trav::len12, trav::c12),
        ("C13", trav::len, trav::c13),
        ("C14", trav::len14, trav::c14),
        ("C15", matching::len15, matching::c15),
        ("C16", matching::len, matching::c16),
        ("C17", matching::len, matching::c17),
        ("C18", matching::len, matching::c18),
        ("C19", matching::len19, matching::c19),
        ("C20", matching::len20, matching::c20),
        ("C21", iface::len, iface::c21),
        ("C22", pure::len, pure::c22),
        ("C23", bound::len, bound::c23),
        ("C23s", bound::len_stack, bound::c23),
        ("C24", memory::len, memory::c24),
        ("C24p", |_| 8, crate::script::pick),
    ]
}

/// Ordinary, light cases of a property, to be varied by breeding; none where a case is too costly.
pub fn light(prop: &str, t: bool) -> Vec<u64> {
    // far from every case that is special for its number
    let next = |from: u64, rest: u64| from / 6000 * 6000 + 6000 + rest;
    match prop {
        "C01" | "C03" | "C04" => { let p = graph::plan(t); vec![next(p.small(), 20), next(p.len(), 20)] }
        "C02" => vec![6020],
        "C05" | "C06" | "C07" => vec![next(2000, 20)],
        "C08" | "C09" | "C10" | "C11" | "C13" => vec![next(trav::plan(t).small(), 20)],
        "C12" => vec![6020, 6090, 6190],
        "C14" => vec![next(trav::plan14(t).small(), 20)],
        "C15" => vec![next(matching::plan15(t).small(), 20)],
        "C16" | "C17" | "C18" => vec![next(matching::plan(t).small(), 20)],
        "C19" | "C20" => vec![6020],
        "C21" => vec![next(iface::plan(t).small(), 20)],
        "C22" => vec![6020],
        "C23" => { let s = bound::sizes(t); vec![next(s.corpus.small() + s.stack * crate::gen::BIG as u64 + s.pairs, 20)] }
        "C24" => vec![6020, 6090],
        _ => vec![],
    }
}
