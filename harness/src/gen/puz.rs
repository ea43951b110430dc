//! Generators of puzzles, patterns, transformations and algs on a puzzle.
use super::alg::*;
use super::dict::dict;
use crate::engine::Src;
use crate::model::alg::*;
use crate::model::puz::*;
use std::sync::OnceLock;

pub fn supported_ms() -> &'static [u8] {
    static S: OnceLock<Vec<u8>> = OnceLock::new();
    S.get_or_init(|| (1..=107u32).filter(|m| supported_m(*m)).map(|m| m as u8).collect())
}

pub fn orbit_m(s: &mut Src) -> u8 {
    match s.weighted(&[10, 4, 2]) {
        0 => *s.pick(&[1, 2, 3, 4, 6, 12]),
        1 => *s.pick(supported_ms()),
        _ => *s.pick(&[107, 103, 101, 97, 60, 64, 71, 89, 54, 66, 70, 78, 5, 7, 24, 36, 48]),
    }
}
pub fn orbit_n(s: &mut Src) -> u8 {
    match s.weighted(&[10, 4, 2, 1, 1]) {
        0 => s.range(1, 6) as u8,
        1 => s.range(1, 24) as u8,
        2 => s.range(1, 255) as u8,
        3 => 0,
        _ => match s.usize(4) {
            0 => 255,
            1 => *s.pick(&[127, 128, 129, 254, 64, 63, 65, 200]),
            2 => dict_int(s, 255) as u8,
            _ => 16,
        },
    }
}

const NAMES: &[&str] = &["EDGES", "CORNERS", "CENTERS", "PIECES", "A", "a", "EDGES2", "orbit 4", "\"q\"", "é中", "", "WINGS", "XCENTERS"];

fn orbit_name(s: &mut Src) -> String {
    if !s.chance(1, 12) {
        return s.pick(NAMES).to_string();
    }
    // Long ones, also such that have no character boundary at many places.
    let n = 1 + s.size(20, 400);
    let a: String = (0..s.usize(3)).map(|_| 'x').collect();
    a + &s.pick(&["N", "é", "中", "🎲", "name "]).repeat(n)
}

pub fn orbits(s: &mut Src, max_pieces: u8) -> Vec<MOrbit> {
    let k = match s.weighted(&[2, 10, 2, 1]) {
        0 => 1,
        1 => s.range(1, 4) as usize,
        2 => s.range(0, 8) as usize,
        _ => s.range(3, 12) as usize,
    };
    let mut out: Vec<MOrbit> = vec![];
    if s.chance(1, 60) {
        // Dozens of small ones, in no order of their names.
        let k = match s.usize(3) {
            0 => (1usize << s.range(4, 6)) - 1 + s.usize(3),
            1 => s.range(13, 40) as usize,
            _ => s.range(13, 100) as usize,
        };
        for i in 0..k {
            out.push(MOrbit { name: format!("O{}", i), n: s.range(0, 4).min(max_pieces as i64) as u8, m: *s.pick(&[1, 2, 3, 4, 6]) });
        }
        s.shuffle(&mut out);
        return out;
    }
    for i in 0..k {
        let mut name = if s.chance(1, 3) { orbit_name(s) } else { format!("O{}", i) };
        while out.iter().any(|o| o.name == name) {
            name += "_";
        }
        out.push(MOrbit { name, n: orbit_n(s).min(max_pieces), m: orbit_m(s) });
    }
    out
}

/// Many orbits: data past 64 KiB, or more orbits than fit a byte.
pub fn many_orbits(s: &mut Src) -> Vec<MOrbit> {
    let wide = s.bool();
    let k = if wide { s.range(120, 190) } else { s.range(150, 420) };
    (0..k)
        .map(|i| {
            let n = match (wide, s.weighted(&[6, 1])) {
                (true, 0) => *s.pick(&[255u8, 254, 250]),
                (true, _) => s.range(200, 255) as u8,
                (false, 0) => s.range(1, 3) as u8,
                _ => s.range(0, 12) as u8,
            };
            MOrbit { name: format!("O{}", i), n, m: *s.pick(&[1u8, 2, 3, 4, 6]) }
        })
        .collect()
}

pub fn perm(s: &mut Src, n: u8) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).collect();
    if n < 2 {
        return v;
    }
    match s.weighted(&[2, 4, 3, 1, 1]) {
        0 => {}
        1 => s.shuffle(&mut v),
        2 => {
            // a few disjoint short cycles
            let k = s.range(1, 3);
            for _ in 0..k {
                let a = s.usize(n as usize);
                let b = s.usize(n as usize);
                v.swap(a, b);
            }
        }
        3 => v.rotate_left(1),
        _ => v.reverse(),
    }
    v
}
pub fn trans(s: &mut Src, orbits: &[MOrbit]) -> MT {
    let mode = s.weighted(&[6, 2, 2, 1]);
    MT(orbits
        .iter()
        .map(|o| {
            let touch = mode != 1 || s.bool();
            let p = if touch && mode != 2 { perm(s, o.n) } else { (0..o.n).collect() };
            let max_delta = if s.chance(1, 4) { 1 } else { o.m };
            let delta = (0..o.n)
                .map(|_| if !touch || o.m == 1 { 0 } else if max_delta == 1 { 0 } else { if mode == 3 { o.m - 1 } else { s.below(o.m as u64) as u8 } })
                .collect();
            TOrbit { perm: p, delta }
        })
        .collect())
}
fn divisors(m: u8) -> Vec<u8> {
    (1..=m).filter(|d| m % d == 0).collect()
}
pub fn pattern(s: &mut Src, orbits: &[MOrbit]) -> MP {
    let style = s.weighted(&[4, 3, 2, 1]);
    let mut pattern = MP(orbits
        .iter()
        .map(|o| {
            let ds = divisors(o.m);
            let order = perm(s, o.n);
            (0..o.n)
                .map(|i| {
                    let piece = match style {
                        0 => order[i as usize],
                        1 => s.below(4) as u8,
                        _ => s.below(256) as u8,
                    };
                    let md = match style {
                        0 => 0,
                        1 => {
                            if s.bool() {
                                *s.pick(&ds)
                            } else {
                                0
                            }
                        }
                        2 => *s.pick(&ds),
                        _ => {
                            if s.bool() {
                                o.m
                            } else {
                                0
                            }
                        }
                    };
                    let lim = if md == 0 { o.m } else { md };
                    (piece, s.below(lim as u64) as u8, md)
                })
                .collect()
        })
        .collect());
    if s.chance(1, 4) {
        for (o, entries) in orbits.iter().zip(&mut pattern.0) {
            level(s, o, entries);
        }
    }
    pattern
}
/// Makes the entries of an orbit alike in some respects, or all but one of them.
fn level(s: &mut Src, o: &MOrbit, entries: &mut [(u8, u8, u8)]) {
    let Some(first) = entries.first().copied() else { return };
    let (pieces, mods, turns) = (s.bool(), s.bool(), s.bool());
    let md = if s.bool() { *s.pick(&divisors(o.m)) } else { first.2 };
    let spare = if s.chance(1, 4) { s.usize(entries.len()) } else { entries.len() };
    for (i, e) in entries.iter_mut().enumerate() {
        if i == spare {
            continue;
        }
        if pieces {
            e.0 = first.0;
        }
        if mods {
            e.2 = md;
        }
        let lim = if e.2 == 0 { o.m } else { e.2 };
        e.1 = if turns { 0 } else { e.1 % lim };
    }
}

/// Move names a puzzle may use.
pub fn puzzle_move(s: &mut Src) -> MMove {
    match s.weighted(&[12, 3, 2, 1, 1, 1]) {
        0 => {
            let f = s.pick(&["R", "U", "F", "L", "x", "y", "Rw", "SPIN", "SWAP", "r", "M"]).to_string();
            let f = if s.chance(1, 20) { f + *s.pick(&["_SQ_", "_PLUS_", "_PLUSPLUS_", "_SLASH_", "_", "w"]) } else { f };
            mv(&f, 1)
        }
        1 => {
            let f = s.pick(&["R", "U", "F", "y", "ALL"]).to_string();
            let p = match s.weighted(&[2, 1, 1]) {
                0 => MPrefix::Layer(s.range(1, 3) as u32),
                1 => MPrefix::Range(s.range(1, 2) as u32, s.range(2, 4) as u32),
                _ => prefix(s),
            };
            MMove { prefix: p, family: f, amount: 1 }
        }
        2 => {
            let f = s.pick(&["R", "U", "F", "y", "ALL_PLUS_", "R_PLUSPLUS_"]).to_string();
            MMove { prefix: MPrefix::None, family: f, amount: small_amount(s) }
        }
        3 => slash(),
        4 => mv(if s.bool() { U_SQ } else { D_SQ }, 1),
        _ => any_move(s),
    }
}

pub struct PuzzleParams {
    pub max_pieces: u8,
    pub max_moves: usize,
    /// Keep the conventions of the notation: `/` an involution, the two turns of a tuple commute,
    /// definitions of opposite amounts are inverse to each other.
    pub conventional: bool,
    pub derived: bool,
    /// Allow derived entries that another definition takes precedence over.
    pub shadow: bool,
}

/// A well-founded puzzle with valid data.
pub fn puzzle(s: &mut Src, pp: &PuzzleParams) -> MPuzzle {
    let os = orbits(s, pp.max_pieces);
    puzzle_on(s, pp, os)
}
pub fn puzzle_on(s: &mut Src, pp: &PuzzleParams, os: Vec<MOrbit>) -> MPuzzle {
    let mut default = pattern_data(&os, &pattern(s, &os));
    for o in default.values_mut() {
        if o.mods.as_ref().unwrap().iter().all(|m| *m == 0) && s.bool() {
            o.mods = None;
        }
    }
    let mut p = MPuzzle { name: if s.chance(1, 40) { orbit_name(s) } else { s.pick(&["p", "custom", "3x3x3", "é"]).to_string() }, orbits: os, default, moves: vec![], derived: None };
    if pp.max_moves >= 4 && s.chance(1, 8) {
        // The turns of a Square-1, which commute: powers of one transformation, or moving different orbits.
        let (u, d);
        if s.bool() {
            let base = trans(s, &p.orbits);
            u = power(&p.orbits, &base, s.range(1, 5));
            d = power(&p.orbits, &base, s.range(-5, 5));
        } else {
            let (mut x, mut y, id) = (trans(s, &p.orbits), trans(s, &p.orbits), identity(&p.orbits));
            for i in 0..id.0.len() {
                if s.bool() {
                    x.0[i] = id.0[i].clone();
                } else {
                    y.0[i] = id.0[i].clone();
                }
            }
            (u, d) = (x, y);
        }
        p.moves.push((mv(U_SQ, 1), trans_data(&p.orbits, &u)));
        p.moves.push((mv(D_SQ, 1), trans_data(&p.orbits, &d)));
    }
    let k = s.size(4, pp.max_moves.max(1));
    for _ in 0..k.max(1) {
        let m = puzzle_move(s);
        if p.moves.iter().any(|(x, _)| *x == m) {
            continue;
        }
        let mut t = trans(s, &p.orbits);
        if pp.conventional {
            if m.amount == 0 {
                continue;
            }
            if p.moves.iter().any(|(x, _)| *x == invert_move(&m)) && m.family != SLASH {
                continue;
            }
            let plain = m.prefix == MPrefix::None;
            if plain && m.family == SLASH {
                if m.amount != 1 {
                    continue;
                }
                // t * (something of order 2): conjugate a disjoint swap.
                t = involution(s, &p.orbits);
            }
            if plain && (m.family == U_SQ || m.family == D_SQ) {
                let other = if m.family == U_SQ { D_SQ } else { U_SQ };
                if m.amount != 1 {
                    continue;
                }
                if let Some((_, d)) = p.moves.iter().find(|(x, _)| *x == mv(other, 1)) {
                    let base = trans_of(&p.orbits, d);
                    t = power(&p.orbits, &base, s.range(-3, 3));
                }
            }
        }
        let d = trans_data(&p.orbits, &t);
        p.moves.push((m, d));
    }
    if p.moves.is_empty() {
        let t = trans(s, &p.orbits);
        p.moves.push((mv("R", 1), trans_data(&p.orbits, &t)));
    }
    if pp.derived && s.chance(3, 4) {
        p.derived = Some(vec![]);
        let k = s.size(3, 10);
        for _ in 0..k {
            let m = puzzle_move(s);
            if p.derived.as_ref().unwrap().iter().any(|(x, _)| *x == m) {
                continue;
            }
            let plain = m.prefix == MPrefix::None;
            if pp.conventional
                && (m.amount == 0 || plain && (m.family == SLASH || m.family == U_SQ || m.family == D_SQ)
                    || p.moves.iter().any(|(x, _)| *x == invert_move(&m))
                    || p.derived.as_ref().unwrap().iter().any(|(x, _)| *x == invert_move(&m)))
            {
                continue;
            }
            let mut a = puzzle_alg(s, &p, 2, 4, 12, true);
            if !pp.conventional {
                a = without_brackets(a);
            }
            p.derived.as_mut().unwrap().push((m, a));
            if (p.shadowed() && !pp.shadow) || p.fault().is_some() || p.mentions_unknown() || p.derived.as_ref().unwrap().iter().any(|(_, a)| p.cost(a) > 600) {
                p.derived.as_mut().unwrap().pop();
            }
        }
    }
    p
}

/// Adds up to hundreds of moves, directly defined and derived, with few different effects.
pub fn widen(s: &mut Src, p: &mut MPuzzle) {
    let effects: Vec<TData> = (0..3).map(|_| trans_data(&p.orbits, &trans(s, &p.orbits))).collect();
    let direct: Vec<MMove> = p.moves.iter().map(|(m, _)| m.clone()).filter(|m| m.amount == 1).collect();
    let n = if s.bool() { 100 + s.size(200, 1_200) } else { 4 + s.usize(100) };
    let style = s.usize(4);
    let step = *s.pick(&[1u32, 1, 7, 256, 65_536]);
    for i in 0..n {
        let l = (i as u32).wrapping_mul(step);
        let name: String = std::iter::successors(Some(i), |x| Some(x / 26)).take(3).map(|x| (b'a' + (x % 26) as u8) as char).collect();
        let m = match style {
            0 => MMove { prefix: MPrefix::Layer(l), family: "N".into(), amount: 1 },
            1 => MMove { prefix: MPrefix::Range(l, l.wrapping_add(i as u32 % 3)), family: "N".into(), amount: 1 },
            2 => mv(&format!("N{}", name), 1),
            _ => mv("N", i as i32 + 2),
        };
        if p.moves.iter().any(|(x, _)| *x == m) || p.derived.iter().flatten().any(|(x, _)| *x == m) {
            continue;
        }
        match &mut p.derived {
            Some(d) if i % 2 == 1 && !direct.is_empty() => {
                let x = &direct[i / 2 % direct.len()];
                d.push((m, MAlg(vec![MNode::Move(MMove { amount: 1 + (i / 4 % 3) as i32, ..x.clone() })])));
            }
            _ => p.moves.push((m, effects[i % 3].clone())),
        }
    }
}

fn involution(s: &mut Src, os: &[MOrbit]) -> MT {
    let mut t = identity(os);
    for (k, o) in os.iter().enumerate() {
        if o.n >= 2 && s.bool() {
            let mut idx: Vec<u8> = (0..o.n).collect();
            s.shuffle(&mut idx);
            let pairs = s.usize(o.n as usize / 2 + 1);
            for q in 0..pairs {
                let (a, b) = (idx[2 * q] as usize, idx[2 * q + 1] as usize);
                t.0[k].perm[a] = b as u8;
                t.0[k].perm[b] = a as u8;
                let d = s.below(o.m as u64) as u8;
                t.0[k].delta[a] = d;
                t.0[k].delta[b] = ((o.m as u32 - d as u32) % o.m as u32) as u8;
            }
        } else if o.m % 2 == 0 && s.bool() {
            for i in 0..o.n as usize {
                if s.bool() {
                    t.0[k].delta[i] = o.m / 2;
                }
            }
        }
    }
    t
}

/// A move the puzzle has (by any of the ways of naming it), as written in an alg.
pub fn known_move(s: &mut Src, p: &MPuzzle, any_amount: bool) -> MMove {
    let mut keys: Vec<&MMove> = p.moves.iter().map(|(k, _)| k).collect();
    if let Some(d) = &p.derived {
        keys.extend(d.iter().map(|(k, _)| k));
    }
    if keys.is_empty() {
        return mv("R", 1);
    }
    let k = (*s.pick(&keys)).clone();
    if k.amount == 1 {
        let a = if any_amount { amount(s) } else { small_amount(s) };
        MMove { amount: a, ..k }
    } else if s.bool() {
        invert_move(&k)
    } else {
        k
    }
}

/// An alg the puzzle accepts (mentions only its moves).
pub fn puzzle_alg(s: &mut Src, p: &MPuzzle, depth: usize, len: usize, budget: usize, small: bool) -> MAlg {
    let has_tuple = p.resolve(&mv(U_SQ, 1)).is_some() && p.resolve(&mv(D_SQ, 1)).is_some();
    let mut mov = |s: &mut Src| known_move(s, p, !small);
    let mut am = |s: &mut Src| if small { small_amount(s) } else { amount(s) };
    let plain = |k: &MMove| (k.family != U_SQ && k.family != D_SQ) || k.amount == 1;
    let tuples = has_tuple && p.moves.iter().all(|(k, _)| plain(k)) && p.derived.iter().flatten().all(|(k, _)| plain(k));
    let a = gen_alg(s, &mut AlgParams { depth, len, comments: true, mov: &mut mov, amount: &mut am, budget, near_tuples: tuples });
    if tuples {
        a
    } else {
        without_tuples(s, p, a)
    }
}
/// Without the conventions, the meaning of the A' in `[A: B]` is not settled.
fn without_brackets(a: MAlg) -> MAlg {
    MAlg(
        a.0.into_iter()
            .map(|n| match n {
                MNode::Comm(x, y) | MNode::Conj(x, y) => MNode::Group(without_brackets(MAlg(x.0.into_iter().chain([MNode::Newline]).chain(y.0).collect())), 1),
                MNode::Group(x, k) => MNode::Group(without_brackets(x), k),
                n => n,
            })
            .collect(),
    )
}
fn without_tuples(s: &mut Src, p: &MPuzzle, a: MAlg) -> MAlg {
    MAlg(
        a.0.into_iter()
            .map(|n| {
                if as_tuple(&n).is_some() {
                    return MNode::Move(known_move(s, p, false));
                }
                match n {
                    MNode::Group(i, k) => MNode::Group(without_tuples(s, p, i), k),
                    MNode::Comm(x, y) => MNode::Comm(without_tuples(s, p, x), without_tuples(s, p, y)),
                    MNode::Conj(x, y) => MNode::Conj(without_tuples(s, p, x), without_tuples(s, p, y)),
                    n => n,
                }
            })
            .collect(),
    )
}

/// Replaces some move by one the puzzle does not have.
pub fn spoil(s: &mut Src, p: &MPuzzle, a: &mut MAlg) {
    let mut m;
    let mut tries = 0;
    loop {
        m = match s.weighted(&[3, 2, 1]) {
            0 => puzzle_move(s),
            1 => {
                let mut k = known_move(s, p, false);
                match s.usize(3) {
                    0 => k.family += "Q",
                    1 => k.prefix = MPrefix::Layer(s.range(1, 9) as u32),
                    _ => k.amount = s.range(2, 9) as i32,
                }
                k
            }
            _ => any_move(s),
        };
        tries += 1;
        if p.resolve(&m).is_none() {
            break;
        }
        if tries > 20 {
            m = mv("NOPE", 1);
            break;
        }
    }
    // Alone, or where a short cut might pass over it.
    let back = MNode::Move(invert_move(&m));
    let m = MNode::Move(m);
    let one = |n: &MNode| MAlg(vec![n.clone()]);
    let k = small_amount(s);
    let nodes = match s.weighted(&[10, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => vec![m],
        1 => vec![m, back],
        2 => vec![m.clone(), m],
        3 => vec![MNode::Group(one(&m), k), MNode::Group(one(&m), k.wrapping_neg())],
        4 => vec![MNode::Comm(one(&m), one(&m))],
        5 => vec![MNode::Comm(one(&m), one(&back))],
        6 => vec![MNode::Conj(one(&m), one(if s.bool() { &back } else { &m }))],
        7 => vec![MNode::Comm(one(&m), MAlg(vec![]))],
        _ => vec![MNode::Conj(one(&m), MAlg(vec![])), MNode::Conj(one(&m), MAlg(vec![]))],
    };
    insert_all_deep(s, a, nodes);
}
/// Inserts a node at a random place, at any depth.
pub fn insert_deep(s: &mut Src, a: &mut MAlg, n: MNode) {
    insert_all_deep(s, a, vec![n])
}
fn insert_all_deep(s: &mut Src, a: &mut MAlg, mut n: Vec<MNode>) {
    let mut cur = a;
    loop {
        let idx: Vec<usize> = cur
            .0
            .iter()
            .enumerate()
            .filter(|(_, x)| matches!(x, MNode::Group(..) | MNode::Comm(..) | MNode::Conj(..)) && as_tuple(x).is_none())
            .map(|(i, _)| i)
            .collect();
        if idx.is_empty() || s.chance(1, 3) {
            let mut at = s.usize(cur.0.len() + 1);
            // never right after a comment
            while at > 0 && matches!(cur.0[at - 1], MNode::Comment(_)) {
                at -= 1;
            }
            cur.0.splice(at..at, n.drain(..));
            return;
        }
        let i = *s.pick(&idx);
        let second = s.bool();
        cur = match &mut cur.0[i] {
            MNode::Group(x, _) => x,
            MNode::Comm(x, y) | MNode::Conj(x, y) => {
                if second {
                    y
                } else {
                    x
                }
            }
            _ => unreachable!(),
        };
    }
}

pub fn dict_size(s: &mut Src, max: i64) -> i64 {
    let d = &dict().ints;
    if d.is_empty() {
        return 0;
    }
    (*s.pick(d) + *s.pick(&[0, 1, -1])).clamp(0, max)
}
