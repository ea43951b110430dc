use crate::engine::{Kind, Prop};
use crate::supervisor::{Opts, Run};
use serde_json::Value;

pub mod algs;
pub mod cli;
pub mod cube;
pub mod defs;
pub mod hist;
pub mod macros;
pub mod puz;
pub mod text;
pub mod threads;
pub mod values;
pub mod weather;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29"];

/// How much more than the counts written with each part a check runs, so that it takes about half a minute
/// with quick counts, and a quarter of an hour with thorough ones.
const SCALE: &[(&str, u64)] = &[
    ("C01", 2), ("C03", 3), ("C04", 3), ("C05", 5), ("C06", 5), ("C07", 4), ("C08", 3), ("C09", 3), ("C10", 5),
    ("C11", 2), ("C12", 4), ("C13", 3), ("C15", 2), ("C16", 8), ("C17", 6), ("C18", 3), ("C19", 5), ("C20", 3),
    ("C21", 2), ("C23", 6), ("C24", 4), ("C25", 2), ("C26", 5), ("C27", 4), ("C29", 5),
];

/// Whether coverage of this process says anything about the code under test (it does not run in processes of its own).
pub fn guided(p: &Prop) -> bool {
    !["C20", "C21", "C22", "C29"].contains(&p.id) && p.subs.iter().any(|s| !s.is_enum())
}

pub fn get(id: &str) -> Option<Prop> {
    let mut p = written(id)?;
    let k = SCALE.iter().find(|x| x.0 == id).map_or(1, |x| x.1);
    for s in &mut p.subs {
        if let Kind::Random { quick, thorough } = &mut s.kind {
            *quick *= k;
            *thorough *= k;
        }
    }
    Some(p)
}

fn written(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => algs::c01(),
        "C02" => algs::c02(),
        "C03" => algs::c03(),
        "C04" => text::c04(),
        "C05" => text::c05(),
        "C06" => algs::c06(),
        "C07" => defs::c07(),
        "C16" => defs::c16(),
        "C17" => hist::c17(),
        "C18" => hist::c18(),
        "C19" => cube::c19(),
        "C20" => threads::c20(),
        "C21" => cli::c21(),
        "C22" => macros::c22(),
        "C23" => defs::c23(),
        "C08" => puz::c08(),
        "C09" => puz::c09(),
        "C10" => puz::c10(),
        "C11" => puz::c11(),
        "C12" => puz::c12(),
        "C13" => puz::c13(),
        "C14" => puz::c14(),
        "C15" => puz::c15(),
        "C24" => puz::c24(),
        "C25" => values::c25(),
        "C26" => values::c26(),
        "C27" => values::c27(),
        "C28" => values::c28(),
        "C29" => cli::c29(),
        _ => return None,
    })
}

/// Parts of a check that are not cases of the engine; the second part lists known findings seen.
pub fn extra(prop: &Prop, o: &Opts) -> (Option<Run>, Vec<String>) {
    match prop.id {
        "C04" => text::c04_extra(o),
        "C20" => threads::c20_extra(o),
        _ => (None, vec![]),
    }
}

pub fn custom_replay(v: &Value) -> i32 {
    match v["property"].as_str() {
        Some("C04") => text::c04_replay(v),
        Some("C20") => threads::c20_replay(v),
        _ => 2,
    }
}

pub fn helper(a: &[String]) -> i32 {
    match a.first().map(|x| x.as_str()) {
        Some("parse") => text::helper_parse(&a[1..]),
        Some("statics") => threads::helper_statics(a.get(1).and_then(|x| x.parse().ok()).unwrap_or(0)),
        Some("deep") => text::helper_deep(),
        _ => 2,
    }
}

/// Runs n independent jobs on 8 threads, results in order.
pub fn parallel<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let next = AtomicUsize::new(0);
    let out: std::sync::Mutex<Vec<Option<T>>> = std::sync::Mutex::new((0..n).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..8.min(n) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    return;
                }
                let r = f(i);
                out.lock().unwrap()[i] = Some(r);
            });
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}
