//! A plain model of puzzles, patterns and transformations.
use super::alg::*;
use cubing::kpuzzle as lib;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MOrbit {
    pub name: String,
    pub n: u8,
    pub m: u8,
}

/// Transformation data of one orbit, as in JSON.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TOrbit {
    pub perm: Vec<u8>,
    pub delta: Vec<u8>,
}
/// Pattern data of one orbit, as in JSON.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct POrbit {
    pub pieces: Vec<u8>,
    pub ori: Vec<u8>,
    pub mods: Option<Vec<u8>>,
}
pub type TData = BTreeMap<String, TOrbit>;
pub type PData = BTreeMap<String, POrbit>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MPuzzle {
    pub name: String,
    pub orbits: Vec<MOrbit>,
    pub default: PData,
    pub moves: Vec<(MMove, TData)>,
    pub derived: Option<Vec<(MMove, MAlg)>>,
}

/// A transformation: per orbit, in definition order.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MT(pub Vec<TOrbit>);
/// A pattern: per orbit, `(piece, orientation, modulus)` per position.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MP(pub Vec<Vec<(u8, u8, u8)>>);

pub fn identity(orbits: &[MOrbit]) -> MT {
    MT(orbits.iter().map(|o| TOrbit { perm: (0..o.n).collect(), delta: vec![0; o.n as usize] }).collect())
}

/// First `a`, then `b`.
pub fn compose(orbits: &[MOrbit], a: &MT, b: &MT) -> MT {
    MT(orbits
        .iter()
        .enumerate()
        .map(|(k, o)| {
            let (x, y) = (&a.0[k], &b.0[k]);
            let src = |i: usize| y.perm[i] as usize;
            TOrbit {
                perm: (0..o.n as usize).map(|i| x.perm[src(i)]).collect(),
                delta: (0..o.n as usize).map(|i| ((x.delta[src(i)] as u32 + y.delta[i] as u32) % o.m as u32) as u8).collect(),
            }
        })
        .collect())
}

pub fn inverse(orbits: &[MOrbit], a: &MT) -> MT {
    MT(orbits
        .iter()
        .enumerate()
        .map(|(k, o)| {
            let x = &a.0[k];
            let mut r = TOrbit { perm: vec![0; o.n as usize], delta: vec![0; o.n as usize] };
            for i in 0..o.n as usize {
                let j = x.perm[i] as usize;
                r.perm[j] = i as u8;
                r.delta[j] = ((o.m as u32 - x.delta[i] as u32) % o.m as u32) as u8;
            }
            r
        })
        .collect())
}

/// `a` repeated `n` times, computed cycle by cycle.
pub fn power(orbits: &[MOrbit], a: &MT, n: i64) -> MT {
    if n < 0 {
        return power(orbits, &inverse(orbits, a), -n);
    }
    MT(orbits
        .iter()
        .enumerate()
        .map(|(k, o)| {
            let x = &a.0[k];
            let len = o.n as usize;
            let mut r = TOrbit { perm: vec![0; len], delta: vec![0; len] };
            let mut seen = vec![false; len];
            for s in 0..len {
                if seen[s] {
                    continue;
                }
                let mut cyc = vec![];
                let mut i = s;
                while !seen[i] {
                    seen[i] = true;
                    cyc.push(i);
                    i = x.perm[i] as usize;
                }
                let c = cyc.len() as i64;
                let total: i64 = cyc.iter().map(|i| x.delta[*i] as i64).sum();
                for (p, i) in cyc.iter().enumerate() {
                    let rest = (n % c) as usize;
                    r.perm[*i] = cyc[(p + rest) % cyc.len()] as u8;
                    let mut d = (n / c) % o.m as i64 * (total % o.m as i64);
                    for q in 0..rest {
                        d += x.delta[cyc[(p + q) % cyc.len()]] as i64;
                    }
                    r.delta[*i] = (d % o.m as i64) as u8;
                }
            }
            r
        })
        .collect())
}

pub fn apply(orbits: &[MOrbit], p: &MP, t: &MT) -> MP {
    MP(orbits
        .iter()
        .enumerate()
        .map(|(k, o)| {
            (0..o.n as usize)
                .map(|i| {
                    let (piece, ori, md) = p.0[k][t.0[k].perm[i] as usize];
                    let modulus = if md == 0 { o.m } else { md } as u32;
                    (piece, ((ori as u32 + t.0[k].delta[i] as u32) % modulus) as u8, md)
                })
                .collect()
        })
        .collect())
}

/// The order-independent meaning of pattern data (a missing modulus list means zeros).
pub fn pattern_of(orbits: &[MOrbit], d: &PData) -> MP {
    MP(orbits
        .iter()
        .map(|o| {
            (0..o.n as usize)
                .map(|i| {
                    let x = &d[&o.name];
                    (x.pieces[i], x.ori[i], x.mods.as_ref().map(|m| m[i]).unwrap_or(0))
                })
                .collect()
        })
        .collect())
}
pub fn pattern_data(orbits: &[MOrbit], p: &MP) -> PData {
    orbits
        .iter()
        .enumerate()
        .map(|(k, o)| {
            (
                o.name.clone(),
                POrbit {
                    pieces: p.0[k].iter().map(|x| x.0).collect(),
                    ori: p.0[k].iter().map(|x| x.1).collect(),
                    mods: Some(p.0[k].iter().map(|x| x.2).collect()),
                },
            )
        })
        .collect()
}
pub fn trans_of(orbits: &[MOrbit], d: &TData) -> MT {
    MT(orbits
        .iter()
        .map(|o| {
            if o.n == 0 {
                return TOrbit { perm: vec![], delta: vec![] };
            }
            let x = &d[&o.name];
            TOrbit { perm: x.perm[..o.n as usize].to_vec(), delta: x.delta[..o.n as usize].to_vec() }
        })
        .collect())
}
pub fn trans_data(orbits: &[MOrbit], t: &MT) -> TData {
    orbits.iter().enumerate().map(|(k, o)| (o.name.clone(), t.0[k].clone())).collect()
}

// ------------------------------------------------------------------------------------ validity

/// Orientation counts the build supports.
pub fn supported_m(m: u32) -> bool {
    if m == 0 || m > 107 {
        return false;
    }
    let divisors: u32 = (1..=m).filter(|d| m % d == 0).sum();
    divisors + m <= 255
}

/// Why pattern data is malformed, with the orbit.
pub fn pattern_fault(orbits: &[MOrbit], d: &PData) -> Option<(&'static str, String)> {
    for o in orbits {
        if o.n == 0 {
            continue;
        }
        let n = o.n as usize;
        let Some(x) = d.get(&o.name) else { return Some(("orbit missing", o.name.clone())) };
        if x.pieces.len() < n || x.ori.len() < n || x.mods.as_ref().is_some_and(|m| m.len() < n) {
            return Some(("list too short", o.name.clone()));
        }
        for i in 0..n {
            let md = x.mods.as_ref().map(|m| m[i]).unwrap_or(0);
            if md != 0 && o.m % md != 0 {
                return Some(("modulus not a divisor", o.name.clone()));
            }
            if x.ori[i] >= if md == 0 { o.m } else { md } {
                return Some(("orientation out of range", o.name.clone()));
            }
        }
    }
    None
}
pub fn trans_fault(orbits: &[MOrbit], d: &TData) -> Option<(&'static str, String)> {
    for o in orbits {
        if o.n == 0 {
            continue;
        }
        let n = o.n as usize;
        let Some(x) = d.get(&o.name) else { return Some(("orbit missing", o.name.clone())) };
        if x.perm.len() < n || x.delta.len() < n {
            return Some(("list too short", o.name.clone()));
        }
        let mut seen = [false; 256];
        for i in 0..n {
            if x.perm[i] >= o.n || seen[x.perm[i] as usize] {
                return Some(("not a permutation", o.name.clone()));
            }
            seen[x.perm[i] as usize] = true;
            if x.delta[i] >= o.m {
                return Some(("delta out of range", o.name.clone()));
            }
        }
    }
    None
}

/// Orbits without pieces that the data leaves out. Whether that is a fault is not settled.
pub fn open_orbits<T>(orbits: &[MOrbit], d: &BTreeMap<String, T>) -> Vec<String> {
    orbits.iter().filter(|o| o.n == 0 && !d.contains_key(&o.name)).map(|o| o.name.clone()).collect()
}
impl MPuzzle {
    /// Whether some data in the definition leaves out an orbit without pieces.
    pub fn open(&self) -> bool {
        !open_orbits(&self.orbits, &self.default).is_empty() || self.moves.iter().any(|(_, d)| !open_orbits(&self.orbits, d).is_empty())
    }
}

// ------------------------------------------------------------------------------------ moves

#[derive(Clone, Debug, PartialEq)]
pub enum Resolved<'a> {
    Direct(&'a MMove, &'a TData, i64),
    Derived(&'a MMove, &'a MAlg, i64),
}

impl MPuzzle {
    fn direct(&self, m: &MMove) -> Option<(&MMove, &TData)> {
        self.moves.iter().find(|(k, _)| k == m).map(|(k, d)| (k, d))
    }
    fn derivation(&self, m: &MMove) -> Option<(&MMove, &MAlg)> {
        self.derived.as_ref()?.iter().find(|(k, _)| k == m).map(|(k, d)| (k, d))
    }
    pub fn resolve(&self, m: &MMove) -> Option<Resolved<'_>> {
        let tries = [
            (MMove { amount: 1, ..m.clone() }, m.amount as i64),
            (m.clone(), 1),
            (invert_move(m), -1),
        ];
        for (key, rel) in tries {
            if let Some((k, d)) = self.direct(&key) {
                return Some(Resolved::Direct(k, d, rel));
            }
            if let Some((k, d)) = self.derivation(&key) {
                return Some(Resolved::Derived(k, d, rel));
            }
        }
        None
    }

    /// Whether the definition is well-founded; otherwise why not. Also the moves an error may name.
    pub fn fault(&self) -> Option<Fault> {
        // 0 in progress, 1 done
        fn visit(p: &MPuzzle, key: &MMove, st: &mut BTreeMap<MMove, u8>, path: &mut Vec<MMove>, f: &mut Vec<Fault>) {
            match st.get(key) {
                Some(1) => return,
                Some(_) => {
                    let from = path.iter().position(|k| k == key).unwrap_or(0);
                    f.push(Fault::Cycle(path[from..].to_vec()));
                    return;
                }
                None => {}
            }
            st.insert(key.clone(), 0);
            path.push(key.clone());
            if let Some(Resolved::Derived(_, alg, _)) = p.resolve(key) {
                let mut ms = vec![];
                moves_in(alg, &mut ms);
                for m in ms {
                    match p.resolve(&m) {
                        None => f.push(Fault::Unknown(m)),
                        Some(Resolved::Direct(..)) => {}
                        Some(Resolved::Derived(k, _, _)) => visit(p, k, st, path, f),
                    }
                }
            }
            path.pop();
            st.insert(key.clone(), 1);
        }
        let mut st = BTreeMap::new();
        let mut faults = vec![];
        for (k, _) in self.derived.iter().flatten() {
            visit(self, k, &mut st, &mut vec![], &mut faults);
        }
        if !faults.is_empty() {
            return Some(Fault::Moves(faults));
        }
        let bad: Vec<String> = self.orbits.iter().filter(|o| !supported_m(o.m as u32)).map(|o| o.name.clone()).collect();
        if !bad.is_empty() {
            return Some(Fault::Orbits(bad));
        }
        None
    }

    /// Derived entries that are never used, because another definition takes precedence.
    pub fn shadowed(&self) -> bool {
        self.derived.iter().flatten().any(|(k, _)| match self.resolve(k) {
            Some(Resolved::Derived(k2, _, _)) => k2 != k,
            _ => true,
        })
    }

    /// Whether the alg of some derived entry, used or not, mentions a move that does not exist.
    pub fn mentions_unknown(&self) -> bool {
        self.derived.iter().flatten().any(|(_, a)| {
            let mut ms = vec![];
            moves_in(a, &mut ms);
            ms.iter().any(|m| self.resolve(m).is_none())
        })
    }

    pub fn eval_move(&self, m: &MMove) -> Result<MT, MMove> {
        match self.resolve(m) {
            None => Err(m.clone()),
            Some(Resolved::Direct(_, d, rel)) => {
                if trans_fault(&self.orbits, d).is_some() {
                    return Err(m.clone());
                }
                Ok(power(&self.orbits, &trans_of(&self.orbits, d), rel))
            }
            Some(Resolved::Derived(_, a, rel)) => Ok(power(&self.orbits, &self.eval(a)?, rel)),
        }
    }

    pub fn eval(&self, a: &MAlg) -> Result<MT, MMove> {
        let o = &self.orbits;
        let mut t = identity(o);
        for n in &a.0 {
            let x = match n {
                MNode::Move(m) => self.eval_move(m)?,
                MNode::Group(i, k) => power(o, &self.eval(i)?, *k as i64),
                MNode::Comm(x, y) => {
                    let (x, y) = (self.eval(x)?, self.eval(y)?);
                    compose(o, &compose(o, &x, &y), &compose(o, &inverse(o, &x), &inverse(o, &y)))
                }
                MNode::Conj(x, y) => {
                    let (x, y) = (self.eval(x)?, self.eval(y)?);
                    compose(o, &compose(o, &x, &y), &inverse(o, &x))
                }
                _ => continue,
            };
            t = compose(o, &t, &x);
        }
        Ok(t)
    }

    /// Cost of a direct evaluation, derived moves included.
    pub fn cost(&self, a: &MAlg) -> u64 {
        fn go(p: &MPuzzle, a: &MAlg, depth: usize, memo: &mut BTreeMap<MMove, u64>) -> u64 {
            if depth > 200 {
                return u64::MAX / 4;
            }
            let mut c = 0u64;
            for n in &a.0 {
                c = c.saturating_add(match n {
                    MNode::Move(m) => match p.resolve(m) {
                        Some(Resolved::Derived(k, d, _)) => match memo.get(k) {
                            Some(c) => *c,
                            None => {
                                let c = go(p, d, depth + 1, memo).saturating_add(1);
                                memo.insert(k.clone(), c);
                                c
                            }
                        },
                        _ => 1,
                    },
                    MNode::Group(i, _) => go(p, i, depth + 1, memo).saturating_add(1),
                    MNode::Comm(x, y) => go(p, x, depth + 1, memo).saturating_mul(2).saturating_add(go(p, y, depth + 1, memo).saturating_mul(2)).saturating_add(4),
                    MNode::Conj(x, y) => go(p, x, depth + 1, memo).saturating_mul(2).saturating_add(go(p, y, depth + 1, memo)).saturating_add(3),
                    _ => 1,
                });
            }
            c
        }
        go(self, a, 0, &mut BTreeMap::new())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Cycle(Vec<MMove>),
    Unknown(MMove),
    Moves(Vec<Fault>),
    Orbits(Vec<String>),
}

// ------------------------------------------------------------------------------------ conversions

pub fn oname(s: &str) -> lib::KPuzzleOrbitName {
    lib::KPuzzleOrbitName(s.to_owned())
}
pub fn tdata_to_lib(d: &TData) -> lib::KTransformationData {
    d.iter()
        .map(|(k, x)| (oname(k), lib::KTransformationOrbitData { permutation: x.perm.clone(), orientation_delta: x.delta.clone() }))
        .collect()
}
pub fn tdata_from_lib(d: &lib::KTransformationData) -> TData {
    d.iter().map(|(k, x)| (k.0.clone(), TOrbit { perm: x.permutation.clone(), delta: x.orientation_delta.clone() })).collect()
}
pub fn pdata_to_lib(d: &PData) -> lib::KPatternData {
    d.iter()
        .map(|(k, x)| (oname(k), lib::KPatternOrbitData { pieces: x.pieces.clone(), orientation: x.ori.clone(), orientation_mod: x.mods.clone() }))
        .collect()
}
pub fn pdata_from_lib(d: &lib::KPatternData) -> PData {
    d.iter()
        .map(|(k, x)| (k.0.clone(), POrbit { pieces: x.pieces.clone(), ori: x.orientation.clone(), mods: x.orientation_mod.clone() }))
        .collect()
}
pub fn def_to_lib(p: &MPuzzle) -> lib::KPuzzleDefinition {
    lib::KPuzzleDefinition {
        name: p.name.clone(),
        orbits: p
            .orbits
            .iter()
            .map(|o| lib::KPuzzleOrbitDefinition { orbit_name: oname(&o.name), num_pieces: o.n, num_orientations: o.m })
            .collect(),
        default_pattern: pdata_to_lib(&p.default),
        moves: p.moves.iter().map(|(m, d)| (move_to_lib(m), tdata_to_lib(d))).collect(),
        derived_moves: p.derived.as_ref().map(|d| d.iter().map(|(m, a)| (move_to_lib(m), to_lib(a))).collect()),
    }
}
/// The model of a definition, with moves sorted.
pub fn def_from_lib(d: &lib::KPuzzleDefinition) -> MPuzzle {
    let mut moves: Vec<(MMove, TData)> = d.moves.iter().map(|(m, t)| (move_from_lib(m), tdata_from_lib(t))).collect();
    moves.sort_by(|a, b| a.0.cmp(&b.0));
    let derived = d.derived_moves.as_ref().map(|d| {
        let mut v: Vec<(MMove, MAlg)> = d.iter().map(|(m, a)| (move_from_lib(m), from_lib(a))).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    });
    MPuzzle {
        name: d.name.clone(),
        orbits: d.orbits.iter().map(|o| MOrbit { name: o.orbit_name.0.clone(), n: o.num_pieces, m: o.num_orientations }).collect(),
        default: pdata_from_lib(&d.default_pattern),
        moves,
        derived,
    }
}
pub fn sorted(p: &MPuzzle) -> MPuzzle {
    let mut p = p.clone();
    p.moves.sort_by(|a, b| a.0.cmp(&b.0));
    if let Some(d) = &mut p.derived {
        d.sort_by(|a, b| a.0.cmp(&b.0));
    }
    p
}

pub fn trans_to_lib(k: &lib::KPuzzle, orbits: &[MOrbit], t: &MT) -> Result<lib::KTransformation, String> {
    lib::KTransformation::try_from_data(k, &tdata_to_lib(&trans_data(orbits, t))).map_err(|e| format!("valid transformation data refused: {}", e))
}
pub fn pattern_to_lib(k: &lib::KPuzzle, orbits: &[MOrbit], p: &MP) -> Result<lib::KPattern, String> {
    lib::KPattern::try_from_data(k, &pdata_to_lib(&pattern_data(orbits, p))).map_err(|e| format!("valid pattern data refused: {}", e))
}
/// Reads a library transformation entry by entry.
pub fn trans_from_lib(t: &lib::KTransformation) -> MT {
    let k = t.kpuzzle();
    MT(k.orbit_info_iter()
        .map(|o| TOrbit {
            perm: (0..o.num_pieces).map(|i| t.get_permutation_idx(o, i)).collect(),
            delta: (0..o.num_pieces).map(|i| t.get_orientation_delta(o, i)).collect(),
        })
        .collect())
}
pub fn pattern_from_lib(p: &lib::KPattern) -> MP {
    let k = p.kpuzzle();
    MP(k.orbit_info_iter()
        .map(|o| {
            (0..o.num_pieces)
                .map(|i| {
                    let x = p.get_orientation_with_mod(o, i);
                    (p.get_piece(o, i), x.orientation, x.orientation_mod)
                })
                .collect()
        })
        .collect())
}

/// JSON texts, written by hand so that they do not depend on the code under test.
pub fn pdata_json(d: &PData, style: u64) -> String {
    let mut v = serde_json::Map::new();
    for (k, x) in d {
        let mut o = serde_json::Map::new();
        o.insert("pieces".into(), serde_json::json!(x.pieces));
        o.insert("orientation".into(), serde_json::json!(x.ori));
        match &x.mods {
            Some(m) => {
                o.insert("orientationMod".into(), serde_json::json!(m));
            }
            None if style % 2 == 0 => {}
            None => {
                o.insert("orientationMod".into(), serde_json::Value::Null);
            }
        }
        v.insert(k.clone(), o.into());
    }
    serde_json::Value::Object(v).to_string()
}
pub fn tdata_json(d: &TData) -> String {
    let mut v = serde_json::Map::new();
    for (k, x) in d {
        v.insert(k.clone(), serde_json::json!({"permutation": x.perm, "orientationDelta": x.delta}));
    }
    serde_json::Value::Object(v).to_string()
}
pub fn def_json(p: &MPuzzle, style: u64) -> String {
    let val = |s: &str| serde_json::from_str::<serde_json::Value>(s).unwrap();
    let mut o = serde_json::Map::new();
    o.insert("name".into(), p.name.clone().into());
    o.insert(
        "orbits".into(),
        p.orbits.iter().map(|o| serde_json::json!({"orbitName": o.name, "numPieces": o.n, "numOrientations": o.m})).collect::<Vec<_>>().into(),
    );
    o.insert("defaultPattern".into(), val(&pdata_json(&p.default, style)));
    let mut m = serde_json::Map::new();
    for (k, d) in &p.moves {
        m.insert(print_move(k), val(&tdata_json(d)));
    }
    o.insert("moves".into(), m.into());
    match &p.derived {
        Some(d) => {
            let mut m = serde_json::Map::new();
            for (k, a) in d {
                m.insert(print_move(k), print_alg(a).into());
            }
            o.insert("derivedMoves".into(), m.into());
        }
        None if style / 2 % 2 == 0 => {}
        None => {
            o.insert("derivedMoves".into(), serde_json::Value::Null);
        }
    }
    serde_json::Value::Object(o).to_string()
}
