//! C07, C16, C23: definitions, malformed data, errors.
use super::puz::{brief, built_in};
use crate::engine::*;
use crate::gen::alg as ga;
use crate::gen::puz as gp;
use crate::gen::puz::PuzzleParams;
use crate::model::alg::*;
use crate::model::puz::*;
use crate::{ensure, ensure_eq};
use cubing::alg::{Alg, AlgParseError, Move, QuantumMove};
use cubing::kpuzzle::*;
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::{Debug, Display};
use std::str::FromStr;

// ------------------------------------------------------------------------------------ C07

/// Definitions with arbitrary graphs of derived moves.
pub fn wild_puzzle(s: &mut Src) -> MPuzzle {
    let mut os = gp::orbits(s, 12);
    let bad_orbits = s.chance(1, 6);
    if bad_orbits {
        for o in os.iter_mut() {
            if s.bool() {
                o.m = match s.usize(3) {
                    0 => 0,
                    1 => s.byte(),
                    _ => *s.pick(&[108, 120, 96, 72, 84, 90, 100, 80, 105, 255, 128, 127, 110, 107]),
                };
            }
        }
    }
    // Move data must fit whatever the orbit counts are: built on supported ones, then the counts replaced.
    let ms: Vec<u8> = os.iter().map(|o| o.m).collect();
    for o in os.iter_mut() {
        if !supported_m(o.m as u32) {
            o.m = 1;
        }
    }
    let mut p = gp::puzzle_on(s, &PuzzleParams { max_pieces: 12, max_moves: 6, conventional: false, derived: false, shadow: true }, os);
    for (o, m) in p.orbits.iter_mut().zip(ms) {
        o.m = m;
    }
    // Derived moves over a pool of keys.
    let k = s.size(4, 12);
    let mut keys: Vec<MMove> = vec![];
    for _ in 0..k {
        let m = match s.weighted(&[4, 2, 2, 1]) {
            0 => mv(["A", "B", "C", "D", "E", "X", "R", "y"][s.usize(8)], 1),
            1 => mv(["A", "B", "C", "y"][s.usize(4)], *s.pick(&[2, -1, -2, 3])),
            2 if !keys.is_empty() => invert_move(&s.pick(&keys).clone()),
            _ => gp::puzzle_move(s),
        };
        if !keys.contains(&m) {
            keys.push(m);
        }
    }
    let unknown = s.chance(1, 4);
    // Acyclic by construction, or anything.
    let acyclic = s.bool();
    let directs: Vec<MMove> = p.moves.iter().map(|(m, _)| m.clone()).collect();
    let mut derived = vec![];
    for (i, key) in keys.iter().enumerate() {
        let pool: Vec<MMove> = if acyclic { keys[i + 1..].to_vec() } else { keys.clone() };
        let mut mov = |s: &mut Src| {
            if unknown && s.chance(1, 12) {
                return match s.usize(3) {
                    0 => mv("NOPE", 1),
                    1 => MMove { prefix: MPrefix::Layer(s.range(1, 9) as u32), ..s.pick(&directs).clone() },
                    _ => ga::any_move(s),
                };
            }
            let from_pool = !pool.is_empty() && s.chance(1, 2);
            let k = if from_pool { s.pick(&pool).clone() } else { s.pick(&directs).clone() };
            if k.amount == 1 {
                MMove { amount: ga::small_amount(s), ..k }
            } else if s.chance(1, 3) {
                invert_move(&k)
            } else {
                k
            }
        };
        let mut am = ga::small_amount;
        let a = ga::gen_alg(s, &mut ga::AlgParams { depth: 3, len: 2, comments: true, mov: &mut mov, amount: &mut am, budget: 10, near_tuples: true });
        derived.push((key.clone(), a));
    }
    s.shuffle(&mut derived);
    p.derived = if derived.is_empty() && s.bool() { None } else { Some(derived) };
    // Some move data may be malformed: that is only found out when the move is used.
    if s.chance(1, 5) && !p.orbits.is_empty() {
        let os = p.orbits.clone();
        let i = s.usize(p.moves.len());
        corrupt_move_data(s, &os, &mut p.moves[i].1);
    }
    p
}
/// As corrupt_tdata, but orbits without pieces stay.
fn corrupt_move_data(s: &mut Src, os: &[MOrbit], d: &mut TData) {
    corrupt_tdata(s, os, d);
    for o in os.iter().filter(|o| o.n == 0) {
        d.entry(o.name.clone()).or_insert(TOrbit { perm: vec![], delta: vec![] });
    }
}

/// A long chain of moves, each derived from the next, possibly closed to a cycle.
fn chain_puzzle(s: &mut Src) -> MPuzzle {
    let os = vec![MOrbit { name: "O".into(), n: 3, m: 2 }];
    let mut p = gp::puzzle_on(s, &PuzzleParams { max_pieces: 6, max_moves: 1, conventional: true, derived: false, shadow: false }, os);
    // Rarely so long that every chain of it is one.
    let long = s.chance(1, 25);
    let n = if long { s.size(100, 400) } else { s.size(10, 60) };
    let name = |i: usize| {
        if long {
            MMove { prefix: MPrefix::Layer(i as u32), family: "C".into(), amount: 1 }
        } else {
            mv(&format!("C{}", "abcdefghij".chars().nth(i / 10).unwrap_or('z')).repeat(1 + i % 10), 1)
        }
    };
    let direct = p.moves[0].0.clone();
    let width = if long { 1 } else { s.range(1, 3) };
    let mut derived = vec![];
    for i in 0..n {
        let next = if i + 1 < n { name(i + 1) } else { direct.clone() };
        let mut nodes = vec![];
        for _ in 0..width {
            nodes.push(MNode::Move(next.clone()));
        }
        if !long && s.chance(1, 8) && i + 2 < n {
            let j = i + 2 + s.usize(n - i - 2);
            nodes.push(MNode::Move(name(j)));
        }
        derived.push((name(i), MAlg(nodes)));
    }
    if n > 0 && s.chance(1, 3) {
        let (i, j) = (s.usize(n), s.usize(n));
        derived[i.max(j)].1 .0.push(MNode::Group(MAlg(vec![MNode::Move(name(i.min(j)))]), 1));
    }
    s.shuffle(&mut derived);
    p.derived = Some(derived);
    p
}

/// Acceptance decided in another way: repeatedly remove entries that mention no remaining entry.
fn well_founded(p: &MPuzzle) -> bool {
    let mut left: Vec<(&MMove, Vec<MMove>)> = vec![];
    for (k, a) in p.derived.iter().flatten() {
        // An entry another definition takes precedence over is never used.
        if !matches!(p.resolve(k), Some(Resolved::Derived(k2, _, _)) if k2 == k) {
            continue;
        }
        let mut ms = vec![];
        moves_in(a, &mut ms);
        let mut deps = vec![];
        for m in ms {
            match p.resolve(&m) {
                None => return false,
                Some(Resolved::Direct(..)) => {}
                Some(Resolved::Derived(k, _, _)) => deps.push(k.clone()),
            }
        }
        left.push((k, deps));
    }
    loop {
        let n = left.len();
        let names: std::collections::HashSet<MMove> = left.iter().map(|(k, _)| (*k).clone()).collect();
        left.retain(|(_, d)| d.iter().any(|x| names.contains(x)));
        if left.is_empty() {
            return true;
        }
        if left.len() == n {
            return false;
        }
    }
}
fn orbits_supported(p: &MPuzzle) -> bool {
    p.orbits.iter().all(|o| supported_m(o.m as u32))
}

fn check_definition(c: &mut Case, p: &MPuzzle) -> R {
    let want = well_founded(p) && orbits_supported(p);
    if want != p.fault().is_none() {
        return Err(format!("harness: the two models of acceptance disagree on {}", brief(p)));
    }
    if want && p.mentions_unknown() {
        // A never-used entry mentions an unknown move: not settled by the property.
        c.label("skipped: unused entry with an unknown move");
        return Ok(());
    }
    c.label(if want { "accepted" } else if orbits_supported(p) { "refused: derived moves" } else { "refused: orbits" });
    let mut k = None;
    let j = def_json(&settled(p), 0);
    for round in 0..4 {
        let got = match round {
            0 => KPuzzle::try_new(def_to_lib(p)),
            1 => KPuzzle::try_from(def_to_lib(p)),
            2 => KPuzzle::try_new(std::sync::Arc::new(def_to_lib(p))),
            _ => KPuzzle::try_from_json(j.as_bytes()),
        };
        ensure!(
            got.is_ok() == want,
            "{} is {} (round {}{}), although it is {}",
            brief(p),
            if got.is_ok() { "accepted" } else { "refused" },
            round,
            got.as_ref().err().map(|e| format!(": {}", e)).unwrap_or_default(),
            if want { "well-founded" } else { "not" }
        );
        k = got.ok();
    }
    let Some(k) = k else { return Ok(()) };
    let k0 = KPuzzle::try_new(def_to_lib(p)).map_err(|e| e.to_string())?;
    ensure_eq!(def_from_lib(k0.definition()), sorted(p), "definition()");
    let _ = format!("{:?}", k0);
    let got: Vec<(String, u8, u8)> = k.orbit_info_iter().map(|o| (o.name.0.clone(), o.num_pieces, o.num_orientations)).collect();
    let exp: Vec<(String, u8, u8)> = p.orbits.iter().map(|o| (o.name.clone(), o.n, o.m)).collect();
    ensure_eq!(got, exp, "orbits");
    for o in &p.orbits {
        let x = k.lookup_orbit(&oname(&o.name)).map(|x| (x.name.0.clone(), x.num_pieces, x.num_orientations));
        ensure_eq!(x, Some((o.name.clone(), o.n, o.m)), "lookup_orbit({:?})", o.name);
    }
    ensure!(k.lookup_orbit(&oname("no such orbit")).is_none(), "an orbit that does not exist is found");
    // Every move, directly and through an alg.
    let os = &p.orbits;
    let mut keys: Vec<MMove> = p.moves.iter().map(|(m, _)| m.clone()).collect();
    keys.extend(p.derived.iter().flatten().map(|(m, _)| m.clone()));
    let mut budget = 40_000u64;
    for key in &keys {
        let m = match c.s.usize(3) {
            0 => key.clone(),
            1 => invert_move(key),
            _ => MMove { amount: ga::small_amount(&mut c.s), ..key.clone() },
        };
        let cost = p.cost(&MAlg(vec![MNode::Move(m.clone())]));
        if cost > budget {
            continue;
        }
        budget -= cost;
        check_eval(&k, os, p, &MAlg(vec![MNode::Move(m)]))?;
    }
    let mut a = gp::puzzle_alg(&mut c.s, p, 2, 3, 10, true);
    if c.s.chance(1, 3) {
        gp::spoil(&mut c.s, p, &mut a);
    }
    if p.cost(&a) <= 40_000 {
        check_eval(&k, os, p, &a)?;
    }
    Ok(())
}
fn check_eval(k: &KPuzzle, os: &[MOrbit], p: &MPuzzle, a: &MAlg) -> R {
    let want = p.eval(a);
    let got = k.transformation_from_alg(&to_lib(a));
    match (got, want) {
        (Ok(t), Ok(w)) => ensure_eq!(trans_from_lib(&t), w, "effect of {:?} on {}", print_alg(a), brief(p)),
        (Err(_), Err(_)) => {}
        (Ok(_), Err(m)) => return Err(format!("{:?} is accepted on {} although {} has no meaning there", print_alg(a), brief(p), print_move(&m))),
        (Err(e), Ok(_)) => return Err(format!("{:?} is refused on {}: {}", print_alg(a), brief(p), e)),
    }
    let _ = os;
    Ok(())
}
/// Algs as text reads them (the JSON form goes through text).
fn settled(p: &MPuzzle) -> MPuzzle {
    let mut p = p.clone();
    for (_, a) in p.derived.iter_mut().flatten() {
        *a = normalise(a, false);
    }
    p
}
fn c07_graph(c: &mut Case) -> R {
    let p = wild_puzzle(&mut c.s);
    c.describe(|| brief(&p));
    c.key(brief(&p));
    c.nontrivial_if(p.derived.as_ref().is_some_and(|d| d.len() >= 2) || p.orbits.iter().any(|o| o.m > 12));
    check_definition(c, &p)
}
fn c07_chain(c: &mut Case) -> R {
    let p = chain_puzzle(&mut c.s);
    c.describe(|| brief(&p));
    c.key(brief(&p));
    c.nontrivial_if(p.derived.as_ref().is_some_and(|d| d.len() >= 3));
    check_definition(c, &p)
}
/// All orientation counts, alone and among other orbits.
fn c07_counts(c: &mut Case) -> R {
    let i = enum_index(c);
    let m = i as u8;
    c.describe(|| format!("orientation count {}", m));
    c.key(m);
    c.nontrivial = true;
    for (before, n) in [(0, 1), (1, 2), (2, 0), (1, 255)] {
        let mut os = vec![];
        for b in 0..before {
            os.push(MOrbit { name: format!("B{}", b), n: 2, m: 3 });
        }
        os.push(MOrbit { name: "X".into(), n, m });
        os.push(MOrbit { name: "Y".into(), n: 1, m: 1 });
        let p = MPuzzle { name: "p".into(), orbits: os, default: PData::new(), moves: vec![], derived: None };
        let got = KPuzzle::try_new(def_to_lib(&p));
        ensure!(got.is_ok() == supported_m(m as u32), "an orbit of {} pieces with {} orientations is {}", n, m, if got.is_ok() { "accepted" } else { "refused" });
        if let Ok(k) = got {
            let got: Vec<(u8, u8)> = k.orbit_info_iter().map(|o| (o.num_pieces, o.num_orientations)).collect();
            let exp: Vec<(u8, u8)> = p.orbits.iter().map(|o| (o.n, o.m)).collect();
            ensure_eq!(got, exp, "orbits");
            let t = k.identity_transformation();
            ensure_eq!(trans_from_lib(&t), identity(&p.orbits), "identity");
        }
    }
    Ok(())
}

/// What a JSON value of a definition means. None: not a definition. Err: not settled.
fn model_def(v: &Value) -> Result<Option<MPuzzle>, ()> {
    let Some(o) = v.as_object() else { return Err(()) };
    let u8_of = |v: &Value| v.as_u64().filter(|x| *x <= 255).map(|x| x as u8);
    let get = |k: &str| o.get(k);
    let Some(name) = get("name").and_then(|x| x.as_str()) else { return Ok(None) };
    let Some(orbits) = get("orbits").and_then(|x| x.as_array()) else { return Ok(None) };
    let mut p = MPuzzle { name: name.to_owned(), orbits: vec![], default: PData::new(), moves: vec![], derived: None };
    for x in orbits {
        if x.is_array() {
            return Err(());
        }
        let (Some(n), Some(np), Some(no)) = (
            x.get("orbitName").and_then(|x| x.as_str()),
            x.get("numPieces").and_then(u8_of),
            x.get("numOrientations").and_then(u8_of),
        ) else {
            return Ok(None);
        };
        p.orbits.push(MOrbit { name: n.to_owned(), n: np, m: no });
    }
    let Some(d) = get("defaultPattern") else { return Ok(None) };
    let Some(d) = model_pdata(d)? else { return Ok(None) };
    p.default = d;
    let Some(m) = get("moves").and_then(|x| x.as_object()) else { return Ok(None) };
    for (k, x) in m {
        let Some(k) = ref_parse_move(k) else { return Ok(None) };
        let Some(x) = model_tdata(x)? else { return Ok(None) };
        if p.moves.iter().any(|(y, _)| *y == k) {
            return Err(());
        }
        p.moves.push((k, x));
    }
    match get("derivedMoves") {
        None | Some(Value::Null) => {}
        Some(Value::Object(m)) => {
            let mut v = vec![];
            for (k, x) in m {
                let Some(k) = ref_parse_move(k) else { return Ok(None) };
                let Some(a) = x.as_str().and_then(ref_parse_alg) else { return Ok(None) };
                if v.iter().any(|(y, _)| *y == k) {
                    return Err(());
                }
                v.push((k, a));
            }
            p.derived = Some(v);
        }
        _ => return Ok(None),
    }
    Ok(Some(p))
}
fn u8_list(v: Option<&Value>) -> Option<Vec<u8>> {
    v?.as_array()?.iter().map(|x| x.as_u64().filter(|x| *x <= 255).map(|x| x as u8)).collect()
}
pub(super) fn model_pdata(v: &Value) -> Result<Option<PData>, ()> {
    let Some(o) = v.as_object() else { return if v.is_array() { Err(()) } else { Ok(None) } };
    let mut out = PData::new();
    for (k, x) in o {
        if x.is_array() {
            return Err(()); // a struct written as a list: not settled
        }
        let (Some(pieces), Some(ori)) = (u8_list(x.get("pieces")), u8_list(x.get("orientation"))) else { return Ok(None) };
        let mods = match x.get("orientationMod") {
            None | Some(Value::Null) => None,
            some => match u8_list(some) {
                None => return Ok(None),
                l => l,
            },
        };
        out.insert(k.clone(), POrbit { pieces, ori, mods });
    }
    Ok(Some(out))
}
pub(super) fn model_tdata(v: &Value) -> Result<Option<TData>, ()> {
    let Some(o) = v.as_object() else { return if v.is_array() { Err(()) } else { Ok(None) } };
    let mut out = TData::new();
    for (k, x) in o {
        if x.is_array() {
            return Err(());
        }
        let (Some(perm), Some(delta)) = (u8_list(x.get("permutation")), u8_list(x.get("orientationDelta"))) else { return Ok(None) };
        out.insert(k.clone(), TOrbit { perm, delta });
    }
    Ok(Some(out))
}

/// Edits a JSON value at a random place.
fn mutate_value(s: &mut Src, v: &mut Value) {
    // Every node, reached by a random walk.
    let mut cur = v;
    loop {
        let stop = s.chance(1, 3);
        let inner = match &*cur {
            Value::Object(m) => !m.is_empty(),
            Value::Array(a) => !a.is_empty(),
            _ => false,
        };
        if !inner {
            let edited = match &*cur {
                Value::Number(n) if s.bool() => Value::from((n.as_i64().unwrap_or(0) + s.range(-2, 2)).clamp(-1, 300)),
                Value::String(t) if s.bool() => Value::from(ga::mutate(s, t)),
                _ => odd_value(s),
            };
            *cur = edited;
            return;
        }
        match cur {
            Value::Object(m) => {
                let keys: Vec<String> = m.keys().cloned().collect();
                let k = s.pick(&keys).clone();
                if stop {
                    match s.usize(5) {
                        0 => {
                            m.remove(&k);
                        }
                        1 => {
                            let x = m.remove(&k).unwrap();
                            m.insert(ga::mutate(s, &k), x);
                        }
                        2 => {
                            let x = m[&k].clone();
                            m.insert(k.clone() + "2", x);
                        }
                        3 => {
                            m.insert(k, Value::Null);
                        }
                        _ => {
                            m.insert(k, odd_value(s));
                        }
                    }
                    return;
                }
                cur = m.get_mut(&k).unwrap();
            }
            Value::Array(a) => {
                let i = s.usize(a.len());
                if stop {
                    match s.usize(4) {
                        0 => {
                            a.remove(i);
                        }
                        1 => {
                            let x = a[i].clone();
                            a.insert(i, x);
                        }
                        2 => a[i] = odd_value(s),
                        _ => {
                            let j = s.usize(a.len());
                            a.swap(i, j)
                        }
                    }
                    return;
                }
                cur = &mut a[i];
            }
            _ => unreachable!(),
        }
    }
}
fn odd_value(s: &mut Src) -> Value {
    match s.usize(11) {
        0 => Value::Null,
        1 => Value::from(true),
        2 => Value::from(s.range(-1, 257)),
        3 => Value::from(1.5),
        4 => Value::from(0.0),
        5 => Value::from("R"),
        6 => Value::from(""),
        7 => serde_json::json!({}),
        8 => serde_json::json!([]),
        9 => Value::from(*s.pick(&[255i64, 256, -1, 4294967296, 108, 0])),
        _ => serde_json::json!([0, 256]),
    }
}
/// Edits bytes.
fn mutate_bytes(s: &mut Src, b: &mut Vec<u8>) {
    let n = 1 + s.size(1, 5);
    for _ in 0..n {
        let i = s.usize(b.len() + 1);
        match s.usize(5) {
            0 => b.truncate(i),
            1 => b.insert(i, *s.pick(b"{}[]\",:0123456789nutrlfase \\\xff\xc3\x00-.e")),
            2 if i < b.len() => {
                b.remove(i);
            }
            3 if i < b.len() => b[i] = s.byte(),
            _ if i < b.len() => {
                let j = (i + s.usize(20)).min(b.len());
                let part = b[i..j].to_vec();
                b.splice(i..i, part);
            }
            _ => {}
        }
    }
}

/// Whether the text breaks the syntax of JSON.
fn not_json(bytes: &[u8]) -> bool {
    serde_json::from_slice::<serde::de::IgnoredAny>(bytes).is_err()
}
fn c07_json(c: &mut Case) -> R {
    let p = settled(&wild_puzzle(&mut c.s));
    let mut v: Value = serde_json::from_str(&def_json(&p, c.s.below(4))).unwrap();
    let n = c.s.usize(3);
    for _ in 0..n {
        mutate_value(&mut c.s, &mut v);
    }
    let mut bytes = v.to_string().into_bytes();
    if c.s.chance(1, 4) {
        mutate_bytes(&mut c.s, &mut bytes);
        c.label("bytes edited");
    }
    c.describe(|| format!("JSON {}", String::from_utf8_lossy(&bytes)));
    c.key(&bytes);
    c.nontrivial = true;
    let got = KPuzzle::try_from_json(&bytes);
    let Ok(v) = serde_json::from_slice::<Value>(&bytes) else {
        // Bad characters or numbers in a part that is skipped are not settled; bad syntax is.
        if not_json(&bytes) {
            ensure!(got.is_err(), "text that is not JSON is accepted as a definition: {}", String::from_utf8_lossy(&bytes));
        }
        c.label("not JSON");
        return Ok(());
    };
    if String::from_utf8_lossy(&bytes).matches('"').count() != v.to_string().matches('"').count() {
        // Duplicate keys.
        return Ok(());
    }
    match model_def(&v) {
        Err(()) => c.label("not settled"),
        Ok(None) => {
            c.label("no definition");
            ensure!(got.is_err(), "JSON that does not describe a definition is accepted: {}", v)
        }
        Ok(Some(p)) => {
            let want = well_founded(&p) && orbits_supported(&p);
            if p.open() || p.orbits.iter().enumerate().any(|(i, o)| p.orbits[..i].iter().any(|q| q.name == o.name)) || want && p.mentions_unknown() {
                c.label("not settled");
                return Ok(());
            }
            c.label(if want { "accepted" } else { "refused" });
            ensure!(got.is_ok() == want, "{} is {}: {:?}", v, if want { "refused" } else { "accepted" }, got.err());
            if let Ok(k) = got {
                // Use it.
                ensure_eq!(def_from_lib(k.definition()), sorted(&p), "definition()");
                for (m, _) in p.moves.iter().take(6) {
                    check_eval(&k, &p.orbits, &p, &MAlg(vec![MNode::Move(m.clone())]))?;
                }
            }
        }
    }
    Ok(())
}
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "Random definitions (derived moves drawn from a pool so that cycles, shadowing, primed and multiple-turn keys, dangling references and long chains occur; arbitrary orientation counts; some malformed move data) are built four times each (fresh hash orders, all constructors, JSON) and acceptance compared with two independent decisions of well-foundedness; accepted puzzles must report the definition and orbits, and evaluate every move and an alg like the model. Definition JSON is edited as a value and as bytes. All 256 orientation counts are enumerated. Non-trivial: two derived moves or a count above 12; distinct by definition.",
        assumptions: &[
            "Derived entries that another definition takes precedence over are not judged when they mention unknown moves.",
            "Orbit names are distinct, JSON keys unique.",
            "Evaluation is compared up to 40000 look-ups (a chain of n doubling definitions costs 2^n).",
        ],
        subs: vec![
            Sub::enumerate("orientation counts", 256, 256, c07_counts),
            Sub::random("graphs", 40_000, 1_000_000, c07_graph),
            Sub::random("chains", 3_000, 50_000, c07_chain),
            Sub::random("json", 30_000, 800_000, c07_json),
        ],
    }
}

// ------------------------------------------------------------------------------------ C16

/// The orbits with something wrong in them.
fn pattern_faults(os: &[MOrbit], d: &PData) -> Vec<String> {
    os.iter().filter(|o| pattern_fault(std::slice::from_ref(*o), d).is_some()).map(|o| o.name.clone()).collect()
}
fn trans_faults(os: &[MOrbit], d: &TData) -> Vec<String> {
    os.iter().filter(|o| trans_fault(std::slice::from_ref(*o), d).is_some()).map(|o| o.name.clone()).collect()
}

/// Whether data is accepted, if that is settled.
fn settle<T>(d: Option<BTreeMap<String, T>>, os: &[MOrbit], fault: fn(&[MOrbit], &BTreeMap<String, T>) -> Option<(&'static str, String)>) -> Result<Option<bool>, ()> {
    let Some(d) = d else { return Ok(None) };
    match fault(os, &d) {
        Some(_) => Ok(Some(false)),
        None if open_orbits(os, &d).is_empty() => Ok(Some(true)),
        None => Err(()),
    }
}

fn relist(s: &mut Src, l: &mut Vec<u8>) {
    match s.usize(6) {
        0 => {
            l.pop();
        }
        1 => l.push(s.byte()),
        4 => {
            // As many again, or several times as many.
            let k = 1 + s.usize(4);
            let part = l.clone();
            for _ in 0..k {
                l.extend(part.iter().copied());
            }
        }
        5 => {
            let k = *s.pick(&[2usize, 7, 16, 60, 250, 256, 300]);
            let b = s.byte();
            l.resize(l.len() + k, b);
        }
        2 => {
            let n = s.usize(l.len() + 1);
            l.truncate(n)
        }
        _ => l.clear(),
    }
}
pub fn corrupt_pdata(s: &mut Src, os: &[MOrbit], d: &mut PData) {
    let real: Vec<&MOrbit> = os.iter().filter(|o| o.n > 0).collect();
    if real.is_empty() {
        return;
    }
    let o = *s.pick(&real);
    if !d.contains_key(&o.name) {
        return;
    }
    let i = match s.usize(4) {
        0 => o.n as usize - 1,
        1 => 0,
        _ => s.usize(o.n as usize),
    };
    match s.weighted(&[2, 2, 6, 5, 1, 1]) {
        0 => {
            d.remove(&o.name);
        }
        1 => {
            let x = d.get_mut(&o.name).unwrap();
            match s.usize(3) {
                0 => relist(s, &mut x.pieces),
                1 => relist(s, &mut x.ori),
                _ => {
                    let m = x.mods.get_or_insert_with(|| vec![0; o.n as usize]);
                    relist(s, m)
                }
            }
        }
        2 => {
            let x = d.get_mut(&o.name).unwrap();
            let md = x.mods.as_ref().and_then(|m| m.get(i).copied()).unwrap_or(0);
            let lim = if md == 0 { o.m } else { md };
            if i < x.ori.len() {
                x.ori[i] = match s.usize(5) {
                    0 => lim,
                    1 => lim.saturating_sub(1),
                    2 => lim.saturating_add(1),
                    3 => 255,
                    _ => s.byte(),
                };
            }
        }
        3 => {
            let x = d.get_mut(&o.name).unwrap();
            let m = x.mods.get_or_insert_with(|| vec![0; o.n as usize]);
            if i < m.len() {
                m[i] = match s.usize(6) {
                    0 => o.m,
                    1 => o.m.saturating_add(1),
                    2 => s.range(1, o.m as i64) as u8,
                    3 => 0,
                    4 => o.m.saturating_mul(2),
                    _ => s.byte(),
                };
            }
        }
        4 => {
            let x = d[&o.name].clone();
            d.insert("extra".into(), x);
        }
        _ => {
            d.get_mut(&o.name).unwrap().mods = None;
        }
    }
}
pub fn corrupt_tdata(s: &mut Src, os: &[MOrbit], d: &mut TData) {
    let real: Vec<&MOrbit> = os.iter().filter(|o| o.n > 0).collect();
    if real.is_empty() {
        return;
    }
    let o = *s.pick(&real);
    if !d.contains_key(&o.name) {
        return;
    }
    let i = match s.usize(4) {
        0 => o.n as usize - 1,
        1 => 0,
        _ => s.usize(o.n as usize),
    };
    match s.weighted(&[2, 2, 6, 5, 1]) {
        0 => {
            d.remove(&o.name);
        }
        1 => {
            let x = d.get_mut(&o.name).unwrap();
            if s.bool() {
                relist(s, &mut x.perm)
            } else {
                relist(s, &mut x.delta)
            }
        }
        2 => {
            let x = d.get_mut(&o.name).unwrap();
            if i < x.perm.len() {
                x.perm[i] = match s.usize(5) {
                    0 => o.n,
                    1 => x.perm[s.usize(x.perm.len())],
                    2 => 255,
                    3 => x.perm[i].wrapping_add(1),
                    _ => s.byte(),
                };
            }
        }
        3 => {
            let x = d.get_mut(&o.name).unwrap();
            if i < x.delta.len() {
                x.delta[i] = match s.usize(4) {
                    0 => o.m,
                    1 => o.m.saturating_sub(1),
                    2 => 255,
                    _ => s.byte(),
                };
            }
        }
        _ => {
            let x = d[&o.name].clone();
            d.insert("extra".into(), x);
        }
    }
}

fn data_puzzle(c: &mut Case) -> Result<(MPuzzle, KPuzzle), String> {
    if c.s.chance(1, 6) {
        return Ok(built_in(c.s.bool()));
    }
    let max = if c.s.chance(1, 8) { 255 } else { 20 };
    let p = gp::puzzle(&mut c.s, &PuzzleParams { max_pieces: max, max_moves: 2, conventional: true, derived: false, shadow: false });
    let k = super::puz::lib_puzzle(&p)?;
    Ok((p, k))
}

fn want_pattern_error(e: &ConversionError) -> bool {
    matches!(e, ConversionError::InvalidKPatternData(_))
}
fn want_trans_error(e: &ConversionError) -> bool {
    matches!(e, ConversionError::InvalidKTransformationData(_))
}

/// An accepted value must behave.
fn use_pattern(c: &mut Case, os: &[MOrbit], k: &KPuzzle, d: &PData, x: &KPattern) -> R {
    let m = pattern_of(os, d);
    ensure_eq!(pattern_from_lib(x), m, "pattern from data {}", pdata_json(d, 0));
    let t = gp::trans(&mut c.s, os);
    let lt = trans_to_lib(k, os, &t)?;
    let y = x.apply_transformation(&lt);
    ensure_eq!(pattern_from_lib(&y), apply(os, &m, &t), "accepted pattern after a transformation");
    ensure!(y.apply_transformation(&lt.invert()) == *x, "accepted pattern after a transformation and its inverse");
    let again = KPattern::try_from_data(k, &x.to_data()).map_err(|e| format!("the data an accepted pattern reports is refused: {}", e))?;
    ensure!(again == *x, "accepted pattern and the pattern of its data");
    Ok(())
}
fn use_trans(c: &mut Case, os: &[MOrbit], k: &KPuzzle, d: &TData, x: &KTransformation) -> R {
    let m = trans_of(os, d);
    ensure_eq!(trans_from_lib(x), m, "transformation from data {}", tdata_json(d));
    let t = gp::trans(&mut c.s, os);
    let lt = trans_to_lib(k, os, &t)?;
    ensure_eq!(trans_from_lib(&x.apply_transformation(&lt)), compose(os, &m, &t), "accepted transformation composed");
    ensure_eq!(trans_from_lib(&lt.apply_transformation(x)), compose(os, &t, &m), "composed with an accepted transformation");
    ensure_eq!(trans_from_lib(&x.invert()), inverse(os, &m), "inverse of an accepted transformation");
    let again = KTransformation::try_from_data(k, &x.to_data()).map_err(|e| format!("the data an accepted transformation reports is refused: {}", e))?;
    ensure!(again == *x, "accepted transformation and the one of its data");
    Ok(())
}

fn c16_data(c: &mut Case) -> R {
    let (p, k) = data_puzzle(c)?;
    let os = &p.orbits;
    let n = c.s.weighted(&[1, 4, 2, 1]);
    let is_pattern = c.s.bool();
    c.label(if is_pattern { "pattern" } else { "transformation" });
    if is_pattern {
        let mut d = pattern_data(os, &gp::pattern(&mut c.s, os));
        for _ in 0..n {
            corrupt_pdata(&mut c.s, os, &mut d);
        }
        c.describe(|| format!("pattern data {} for {}", pdata_json(&d, 0), brief(&p)));
        c.key((&d, brief(&p)));
        let want = pattern_fault(os, &d);
        c.nontrivial_if(n > 0 && os.iter().any(|o| o.n > 0));
        c.label(want.as_ref().map(|w| w.0).unwrap_or("valid"));
        let open = !open_orbits(os, &d).is_empty();
        let l = pdata_to_lib(&d);
        for (how, got) in [("data", KPattern::try_from_data(&k, &l)), ("JSON", KPattern::try_from_json(&k, pdata_json(&d, 1).as_bytes()))] {
            match (got, &want) {
                (Ok(x), None) => use_pattern(c, os, &k, &d, &x)?,
                (Err(e), w) if w.is_some() || open => ensure!(want_pattern_error(&e), "the error for bad pattern {} is of another kind: {:?}", how, e),
                (Ok(_), Some(w)) => return Err(format!("pattern {} with a fault ({} in orbit {:?}) is accepted: {} for {}", how, w.0, w.1, pdata_json(&d, 0), brief(&p))),
                (Err(e), _) => return Err(format!("valid pattern {} is refused ({}): {} for {}", how, e, pdata_json(&d, 0), brief(&p))),
            }
        }
    } else {
        let mut d = trans_data(os, &gp::trans(&mut c.s, os));
        for _ in 0..n {
            corrupt_tdata(&mut c.s, os, &mut d);
        }
        c.describe(|| format!("transformation data {} for {}", tdata_json(&d), brief(&p)));
        c.key((&d, brief(&p)));
        let want = trans_fault(os, &d);
        c.nontrivial_if(n > 0 && os.iter().any(|o| o.n > 0));
        c.label(want.as_ref().map(|w| w.0).unwrap_or("valid"));
        let open = !open_orbits(os, &d).is_empty();
        let l = tdata_to_lib(&d);
        for (how, got) in [("data", KTransformation::try_from_data(&k, &l)), ("JSON", KTransformation::try_from_json(&k, tdata_json(&d).as_bytes()))] {
            match (got, &want) {
                (Ok(x), None) => use_trans(c, os, &k, &d, &x)?,
                (Err(e), w) if w.is_some() || open => ensure!(want_trans_error(&e), "the error for bad transformation {} is of another kind: {:?}", how, e),
                (Ok(_), Some(w)) => return Err(format!("transformation {} with a fault ({} in orbit {:?}) is accepted: {} for {}", how, w.0, w.1, tdata_json(&d), brief(&p))),
                (Err(e), _) => return Err(format!("valid transformation {} is refused ({}): {} for {}", how, e, tdata_json(&d), brief(&p))),
            }
        }
    }
    Ok(())
}
fn c16_json(c: &mut Case) -> R {
    let (p, k) = data_puzzle(c)?;
    let os = &p.orbits;
    let is_pattern = c.s.bool();
    let text = if is_pattern {
        let mut d = pattern_data(os, &gp::pattern(&mut c.s, os));
        if c.s.chance(1, 4) {
            corrupt_pdata(&mut c.s, os, &mut d);
        }
        pdata_json(&d, c.s.below(2))
    } else {
        let mut d = trans_data(os, &gp::trans(&mut c.s, os));
        if c.s.chance(1, 4) {
            corrupt_tdata(&mut c.s, os, &mut d);
        }
        tdata_json(&d)
    };
    let mut v: Value = serde_json::from_str(&text).unwrap();
    let n = c.s.usize(3);
    for _ in 0..n {
        mutate_value(&mut c.s, &mut v);
    }
    let mut bytes = v.to_string().into_bytes();
    if c.s.chance(1, 3) {
        mutate_bytes(&mut c.s, &mut bytes);
    }
    c.describe(|| format!("JSON {} for {}", String::from_utf8_lossy(&bytes), brief(&p)));
    c.key((&bytes, brief(&p)));
    c.nontrivial = true;
    let parsed = serde_json::from_slice::<Value>(&bytes);
    let unsettled = |v: &Value| String::from_utf8_lossy(&bytes).matches('"').count() != v.to_string().matches('"').count();
    // Some(true): accepted; Some(false): refused; None: not settled.
    let want_of = |fault: &dyn Fn(&Value) -> Result<Option<bool>, ()>| match &parsed {
        Err(_) if not_json(&bytes) => Some(false),
        Err(_) => None,
        Ok(v) if unsettled(v) => None,
        Ok(v) => match fault(v) {
            Err(()) => None,
            Ok(None) => Some(false),
            Ok(Some(ok)) => Some(ok),
        },
    };
    if is_pattern {
        let want = want_of(&|v| settle(model_pdata(v)?, os, pattern_fault));
        let got = KPattern::try_from_json(&k, &bytes);
        c.label(match want {
            None => "not settled",
            Some(true) => "accepted",
            Some(false) => "refused",
        });
        if let Some(w) = want {
            ensure!(got.is_ok() == w, "pattern JSON {} is {} for {}", String::from_utf8_lossy(&bytes), if w { "refused" } else { "accepted" }, brief(&p));
        }
        match got {
            Ok(x) => {
                if let (Ok(v), Some(true)) = (&parsed, want) {
                    if let Ok(Some(d)) = model_pdata(v) {
                        use_pattern(c, os, &k, &d, &x)?;
                    }
                }
                let d = pdata_from_lib(&x.to_data());
                ensure!(pattern_fault(os, &d).is_none(), "an accepted pattern reports malformed data: {}", pdata_json(&d, 0));
            }
            Err(e) => ensure!(want_pattern_error(&e), "the error for bad pattern JSON is of another kind: {:?}", e),
        }
    } else {
        let want = want_of(&|v| settle(model_tdata(v)?, os, trans_fault));
        let got = KTransformation::try_from_json(&k, &bytes);
        c.label(match want {
            None => "not settled",
            Some(true) => "accepted",
            Some(false) => "refused",
        });
        if let Some(w) = want {
            ensure!(got.is_ok() == w, "transformation JSON {} is {} for {}", String::from_utf8_lossy(&bytes), if w { "refused" } else { "accepted" }, brief(&p));
        }
        match got {
            Ok(x) => {
                let d = tdata_from_lib(&x.to_data());
                ensure!(trans_fault(os, &d).is_none(), "an accepted transformation reports malformed data: {}", tdata_json(&d));
                use_trans(c, os, &k, &d, &x)?;
            }
            Err(e) => ensure!(want_trans_error(&e), "the error for bad transformation JSON is of another kind: {:?}", e),
        }
    }
    Ok(())
}
pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "Valid pattern and transformation data for random puzzles is corrupted structurally (orbit removed, lists shortened or lengthened, orientation at and around its modulus, moduli that do and do not divide, duplicate or out-of-range indices, deltas at the count; extra orbits), given as data and as JSON, and JSON is edited as a value and as bytes (invalid UTF-8 included). Acceptance is compared with an independent validity model, the error kind checked, and accepted values applied, inverted and converted back. Non-trivial: at least one corruption on a puzzle with pieces; distinct by data and puzzle.",
        assumptions: &["Orbits without pieces keep their entry. Duplicate JSON keys and lists in place of objects are not judged."],
        subs: vec![Sub::random("data", 50_000, 1_500_000, c16_data), Sub::random("json", 40_000, 1_000_000, c16_json)],
    }
}

// ------------------------------------------------------------------------------------ C23

/// Walks the sources of anything that is an error (autoref: types that are not are skipped).
struct Walk<'a, T>(&'a T);
trait WalkError {
    fn walk(&self) -> R;
}
impl<T: std::error::Error + 'static> WalkError for Walk<'_, T> {
    fn walk(&self) -> R {
        let mut cur: &dyn std::error::Error = self.0;
        for _ in 0..100 {
            let _ = cur.to_string();
            match cur.source() {
                None => return Ok(()),
                Some(s) => cur = s,
            }
        }
        Err(format!("the chain of sources of {:?} does not end within 100 steps", self.0.to_string()))
    }
}
trait WalkOther {
    fn walk(&self) -> R;
}
impl<T> WalkOther for &Walk<'_, T> {
    fn walk(&self) -> R {
        Ok(())
    }
}

/// The message is not empty, and both Display and Debug show it.
fn shows(e: &(impl Display + Debug), description: &str, what: &str) -> R {
    ensure!(!description.trim().is_empty(), "{}: the message is empty", what);
    ensure!(e.to_string().contains(description), "{}: displayed as {:?}, which lacks the message {:?}", what, e.to_string(), description);
    for dbg in [format!("{:?}", e), format!("{:#?}", e)] {
        let escaped = format!("{:?}", description);
        let inner = &escaped[1..escaped.len() - 1];
        ensure!(dbg.contains(description) || dbg.contains(inner), "{}: debugged as {}, which lacks the message {:?}", what, dbg, description);
    }
    Ok(())
}
fn names_one(description: &str, names: &[String], what: &str) -> R {
    ensure!(names.is_empty() || names.iter().any(|n| description.contains(n.as_str())), "{}: the message {:?} names none of {:?}", what, description, names);
    Ok(())
}
/// An invalid-move error and its conversions.
fn move_error(e: InvalidAlgError, names: &[String], what: &str) -> R {
    (&Walk(&e)).walk()?;
    let InvalidAlgError::InvalidMove(m) = &e else { return Err(format!("{}: the error is of another kind: {:?}", what, e)) };
    shows(m, &m.description, what)?;
    shows(&e, &m.description, what)?;
    names_one(&m.description, names, what)?;
    let d = m.description.clone();
    let up: ConversionError = e.into();
    (&&Walk(&up)).walk()?;
    ensure!(matches!(&up, ConversionError::InvalidAlg(InvalidAlgError::InvalidMove(_))), "{}: converted to {:?}", what, up);
    shows(&up, &d, what)
}
fn parse_error(e: AlgParseError, what: &str) -> R {
    let d = e.description.clone();
    (&&Walk(&e)).walk()?;
    shows(&e, &d, what)?;
    let e: InvalidAlgError = e.into();
    (&Walk(&e)).walk()?;
    ensure!(matches!(&e, InvalidAlgError::AlgParse(_)), "{}: converted to {:?}", what, e);
    shows(&e, &d, what)?;
    let e: ConversionError = e.into();
    ensure!(matches!(&e, ConversionError::InvalidAlg(InvalidAlgError::AlgParse(_))), "{}: converted to {:?}", what, e);
    shows(&e, &d, what)
}

fn c23_syntax(c: &mut Case) -> R {
    let t = ga::any_text(&mut c.s);
    c.describe(|| format!("text {:?}", t));
    c.key(&t);
    let mut failed = 0;
    if let Err(e) = Alg::from_str(&t) {
        parse_error(e, &format!("parsing {:?} as an alg", t))?;
        failed += 1;
    }
    if let Err(e) = Move::from_str(&t) {
        parse_error(e, &format!("parsing {:?} as a move", t))?;
        failed += 1;
    }
    if let Err(e) = QuantumMove::from_str(&t) {
        parse_error(e, &format!("parsing {:?} as a quantum move", t))?;
        failed += 1;
    }
    c.nontrivial_if(failed > 0);
    // serde's message is non-empty too.
    if ref_parse_alg(&t).is_none() {
        let j = serde_json::to_string(&t).unwrap();
        if let Err(e) = serde_json::from_str::<Alg>(&j) {
            ensure!(!e.to_string().is_empty(), "empty message");
        }
    }
    Ok(())
}
fn c23_moves(c: &mut Case) -> R {
    let (p, k) = if c.s.chance(1, 3) {
        built_in(c.s.bool())
    } else {
        let mut p = gp::puzzle(&mut c.s, &PuzzleParams { max_pieces: 8, max_moves: 6, conventional: false, derived: true, shadow: true });
        if c.s.chance(1, 3) {
            let os = p.orbits.clone();
            let i = c.s.usize(p.moves.len());
            corrupt_move_data(&mut c.s, &os, &mut p.moves[i].1);
        }
        let k = super::puz::lib_puzzle(&p)?;
        (p, k)
    };
    let mut a = gp::puzzle_alg(&mut c.s, &p, 3, 4, 20, true);
    if !c.s.chance(1, 4) {
        gp::spoil(&mut c.s, &p, &mut a);
    }
    // What may be named: unknown moves, and moves that are or depend on a badly defined one.
    let mut ms = vec![];
    moves_in(&a, &mut ms);
    let mut offending: Vec<MMove> = vec![];
    let mut stack = ms.clone();
    let mut seen: Vec<MMove> = vec![];
    while let Some(m) = stack.pop() {
        if seen.contains(&m) {
            continue;
        }
        seen.push(m.clone());
        match p.resolve(&m) {
            None => offending.push(m),
            Some(Resolved::Direct(key, d, _)) => {
                if trans_fault(&p.orbits, d).is_some() {
                    offending.push(key.clone());
                    offending.push(m);
                }
            }
            Some(Resolved::Derived(_, x, _)) => moves_in(x, &mut stack),
        }
    }
    let names: Vec<String> = offending.iter().map(print_move).collect();
    c.describe(|| format!("alg {:?} on {}; offending {:?}", print_alg(&a), brief(&p), names));
    c.key((&a, brief(&p)));
    c.nontrivial_if(!offending.is_empty());
    if p.cost(&a) > 20_000 {
        return Ok(());
    }
    let l = to_lib(&a);
    let pat = KPattern::try_from_data(&k, &pdata_to_lib(&p.default)).map_err(|e| e.to_string())?;
    for (what, e) in [("transformation_from_alg", k.transformation_from_alg(&l).err()), ("apply_alg", pat.apply_alg(&l).err())] {
        match e {
            Some(e) => move_error(e, &names, &format!("{} of {:?} on {}", what, print_alg(&a), brief(&p)))?,
            None => ensure!(offending.is_empty(), "{} accepts {:?} on {}", what, print_alg(&a), brief(&p)),
        }
    }
    for m in ms.iter().filter(|m| p.resolve(m).is_none()).take(3) {
        let lm = move_to_lib(m);
        let what = format!("move {} on {}", print_move(m), brief(&p));
        for e in [k.transformation_from_move(&lm).err(), pat.apply_move(&lm).err()] {
            match e {
                Some(e) => move_error(e, &[print_move(m)], &what)?,
                None => return Err(format!("{}: accepted", what)),
            }
        }
    }
    Ok(())
}

fn definition_error(e: InvalidDefinitionError, names: &[String], what: &str) -> R {
    (&&Walk(&e)).walk()?;
    let d = e.description.clone();
    shows(&e, &d, what)?;
    names_one(&d, names, what)?;
    let up: ConversionError = e.into();
    ensure!(matches!(&up, ConversionError::InvalidDefinition(_)), "{}: converted to {:?}", what, up);
    shows(&up, &d, what)
}
/// Moves and orbits a definition error may name.
fn definition_offenders(p: &MPuzzle) -> Vec<String> {
    let mut out: Vec<String> = p.orbits.iter().filter(|o| !supported_m(o.m as u32)).map(|o| o.name.clone()).collect();
    // Any entry from which a cycle or an unknown move is reached, and any unknown move or mention of such an entry.
    let entries: Vec<(MMove, Vec<MMove>)> = p
        .derived
        .iter()
        .flatten()
        .map(|(k, a)| {
            let mut ms = vec![];
            moves_in(a, &mut ms);
            (k.clone(), ms)
        })
        .collect();
    // Well-founded entries, by repeated removal.
    let mut good: Vec<MMove> = vec![];
    loop {
        let n = good.len();
        for (k, ms) in &entries {
            if good.contains(k) {
                continue;
            }
            let fine = match p.resolve(k) {
                Some(Resolved::Derived(k2, _, _)) if k2 == k => ms.iter().all(|m| match p.resolve(m) {
                    Some(Resolved::Direct(..)) => true,
                    Some(Resolved::Derived(k3, _, _)) => good.contains(k3),
                    None => false,
                }),
                _ => true,
            };
            if fine {
                good.push(k.clone());
            }
        }
        if good.len() == n {
            break;
        }
    }
    for (k, ms) in &entries {
        if !good.contains(k) {
            out.push(print_move(k));
        }
        for m in ms {
            match p.resolve(m) {
                None => out.push(print_move(m)),
                Some(Resolved::Derived(k2, _, _)) if !good.contains(k2) => out.push(print_move(m)),
                _ => {}
            }
        }
    }
    out
}
fn c23_definitions(c: &mut Case) -> R {
    let p = settled(&wild_puzzle(&mut c.s));
    c.describe(|| brief(&p));
    c.key(brief(&p));
    if p.fault().is_none() {
        return Ok(());
    }
    c.nontrivial = true;
    let names = definition_offenders(&p);
    c.label(if orbits_supported(&p) { "moves" } else { "orbits" });
    let j = def_json(&p, 0);
    let mut bad = j.clone().into_bytes();
    for (what, e) in [
        ("try_new", KPuzzle::try_new(def_to_lib(&p)).err()),
        ("try_from", KPuzzle::try_from(def_to_lib(&p)).err()),
        ("try_from_json", KPuzzle::try_from_json(j.as_bytes()).err()),
    ] {
        match e {
            Some(e) => definition_error(e, &names, &format!("{} of {}", what, brief(&p)))?,
            None => return Err(format!("{} accepts {}", what, brief(&p))),
        }
    }
    mutate_bytes(&mut c.s, &mut bad);
    if let Err(e) = KPuzzle::try_from_json(&bad) {
        definition_error(e, &[], &format!("definition JSON {}", String::from_utf8_lossy(&bad)))?;
    }
    Ok(())
}
fn c23_data(c: &mut Case) -> R {
    let (p, k) = data_puzzle(c)?;
    let os = &p.orbits;
    let mut pd = pattern_data(os, &gp::pattern(&mut c.s, os));
    let mut td = trans_data(os, &gp::trans(&mut c.s, os));
    let n = 1 + c.s.usize(3);
    for _ in 0..n {
        corrupt_pdata(&mut c.s, os, &mut pd);
        corrupt_tdata(&mut c.s, os, &mut td);
    }
    c.describe(|| format!("pattern data {} transformation data {} for {}", pdata_json(&pd, 0), tdata_json(&td), brief(&p)));
    c.key((&pd, &td, brief(&p)));
    let (pf, tf) = (pattern_faults(os, &pd), trans_faults(os, &td));
    c.nontrivial_if(!pf.is_empty() || !tf.is_empty());
    // These may be named, too.
    let (pn, tn) = ([&pf[..], &open_orbits(os, &pd)].concat(), [&tf[..], &open_orbits(os, &td)].concat());
    let pj = pdata_json(&pd, 0);
    let tj = tdata_json(&td);
    let pattern = |e: ConversionError, names: &[String], what: &str| -> R {
        (&&Walk(&e)).walk()?;
        let ConversionError::InvalidKPatternData(d) = &e else { return Err(format!("{}: the error is of another kind: {:?}", what, e)) };
        shows(d, &d.description, what)?;
        shows(&e, &d.description, what)?;
        names_one(&d.description, names, what)
    };
    let trans = |e: ConversionError, names: &[String], what: &str| -> R {
        (&&Walk(&e)).walk()?;
        let ConversionError::InvalidKTransformationData(d) = &e else { return Err(format!("{}: the error is of another kind: {:?}", what, e)) };
        shows(d, &d.description, what)?;
        shows(&e, &d.description, what)?;
        names_one(&d.description, names, what)
    };
    for r in [KPattern::try_from_data(&k, &pdata_to_lib(&pd)), KPattern::try_from_json(&k, pj.as_bytes())] {
        match r {
            Err(e) => pattern(e, &pn, &format!("pattern data {} for {}", pj, brief(&p)))?,
            Ok(_) => ensure!(pf.is_empty(), "malformed pattern data {} is accepted", pj),
        }
    }
    for r in [KTransformation::try_from_data(&k, &tdata_to_lib(&td)), KTransformation::try_from_json(&k, tj.as_bytes())] {
        match r {
            Err(e) => trans(e, &tn, &format!("transformation data {} for {}", tj, brief(&p)))?,
            Ok(_) => ensure!(tf.is_empty(), "malformed transformation data {} is accepted", tj),
        }
    }
    // Text that is no JSON for it.
    let mut b = if c.s.bool() { pj.into_bytes() } else { tj.into_bytes() };
    mutate_bytes(&mut c.s, &mut b);
    let show = String::from_utf8_lossy(&b).into_owned();
    if let Err(e) = KPattern::try_from_json(&k, &b) {
        pattern(e, &[], &format!("pattern JSON {}", show))?;
    }
    if let Err(e) = KTransformation::try_from_json(&k, &b) {
        trans(e, &[], &format!("transformation JSON {}", show))?;
    }
    Ok(())
}
pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "Failing operations are generated for every kind of error (text, moves and algs on puzzles, definitions, pattern and transformation data and JSON); the variant must match the cause, the message be non-empty, contained in Display and Debug (plain or escaped, also after conversion to the enclosing error types) and name an offending move or orbit where one exists; the chain of sources must end within 100 steps. Non-trivial: an operation that fails; distinct by input.",
        assumptions: &["With several faults, any of them may be reported; for a derived-move cycle, any entry that leads into it may be named."],
        subs: vec![
            Sub::random("syntax", 40_000, 800_000, c23_syntax),
            Sub::random("moves", 30_000, 600_000, c23_moves),
            Sub::random("definitions", 30_000, 600_000, c23_definitions),
            Sub::random("data", 30_000, 600_000, c23_data),
        ],
    }
}
