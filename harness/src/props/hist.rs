//! C17 and C18: histories of operations on values of several puzzles.
use super::puz::brief;
use crate::alloc::{guard_live, guard_reset, guard_setup, guarded};
use crate::engine::*;
use crate::gen::puz as gp;
use crate::gen::puz::PuzzleParams;
use crate::model::alg::*;
use crate::model::puz::*;
use crate::{ensure, ensure_eq};
use cubing::kpuzzle::*;
use std::hash::{Hash, Hasher};

const SLOTS: usize = 9;

/// What a slot holds.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kd {
    P,
    T,
    PB,
    TB,
}
type Slots = [Option<(usize, Kd)>; SLOTS];

/// One operation. Slots are named by index; `d` is the slot that receives the result.
#[derive(Clone, Debug, Hash)]
enum Op {
    DropPuzzle(usize),
    Default(usize, usize),
    Identity(usize, usize),
    PatData(usize, usize, PData),
    TrData(usize, usize, TData),
    PatJson(usize, usize, String),
    TrJson(usize, usize, String),
    FromAlg(usize, usize, MAlg),
    FromMove(usize, usize, MMove),
    ApplyAlg(usize, usize, MAlg),
    ApplyMove(usize, usize, MMove),
    Clone(usize, usize),
    CloneFrom(usize, usize),
    FromRef(usize, usize),
    Roundtrip(usize, usize),
    Apply(usize, usize, usize),
    ApplyInto(usize, usize, usize),
    Invert(usize, usize),
    SetPiece(usize, usize, u8, u8),
    SetOri(usize, usize, u8, u8, u8),
    SetPerm(usize, usize, u8, u8),
    SetDelta(usize, usize, u8, u8),
    GetOut(usize, usize, u8),
    Swap(usize, usize),
    Drop(usize),
    Buffer(usize, usize),
    Feed(usize, usize),
    Current(usize, usize),
    Compare(usize, usize),
    Read(usize),
    Thread(usize),
}

struct Script {
    puzzles: Vec<MPuzzle>,
    ops: Vec<Op>,
}

fn pick_slot(s: &mut Src, st: &Slots, f: impl Fn(usize, Kd) -> bool) -> Option<usize> {
    let xs: Vec<usize> = (0..SLOTS).filter(|i| st[*i].is_some_and(|(p, k)| f(p, k))).collect();
    if xs.is_empty() {
        return None;
    }
    Some(*s.pick(&xs))
}

fn broken_pdata(s: &mut Src, os: &[MOrbit], d: &mut PData) {
    for _ in 0..1 + s.usize(2) {
        let o = s.pick(os).clone();
        let Some(x) = d.get_mut(&o.name) else { continue };
        let i = s.usize(o.n as usize + 1);
        match s.usize(6) {
            0 => {
                d.remove(&o.name);
            }
            1 => x.pieces.truncate(i),
            2 => x.ori.truncate(i),
            3 => {
                if let Some(m) = &mut x.mods {
                    m.truncate(i)
                }
            }
            4 if i < x.ori.len() => x.ori[i] = *s.pick(&[o.m, 255, o.m.wrapping_add(1), 0]),
            _ => {
                if let Some(m) = x.mods.as_mut().filter(|m| i < m.len()) {
                    m[i] = *s.pick(&[o.m, 2, 3, 5, 255, 0, o.m.wrapping_add(1)])
                }
            }
        }
    }
}
fn broken_tdata(s: &mut Src, os: &[MOrbit], d: &mut TData) {
    for _ in 0..1 + s.usize(2) {
        let o = s.pick(os).clone();
        let Some(x) = d.get_mut(&o.name) else { continue };
        let i = s.usize(o.n as usize + 1);
        match s.usize(5) {
            0 => {
                d.remove(&o.name);
            }
            1 => x.perm.truncate(i),
            2 => x.delta.truncate(i),
            3 if i < x.delta.len() => x.delta[i] = *s.pick(&[o.m, 255, o.m.wrapping_add(1), 0]),
            _ if i < x.perm.len() => x.perm[i] = *s.pick(&[o.n, 255, 0, 1]),
            _ => {}
        }
    }
}

fn script(s: &mut Src, big: bool) -> Script {
    let max = if big { *s.pick(&[4u8, 24, 255]) } else { *s.pick(&[3u8, 6, 12]) };
    let mut puzzles: Vec<MPuzzle> = vec![];
    for _ in 0..1 + s.usize(3) {
        let pp = PuzzleParams { max_pieces: max, max_moves: 3, conventional: false, derived: true, shadow: false };
        if !puzzles.is_empty() && s.chance(1, 4) {
            // A second instance of one definition.
            let p = s.pick(&puzzles).clone();
            puzzles.push(p);
        } else {
            puzzles.push(gp::puzzle(s, &pp));
        }
    }
    let mut st: Slots = [None; SLOTS];
    let mut ops = vec![];
    let len = 3 + s.size(16, 80);
    while ops.len() < len {
        let pz = s.usize(puzzles.len());
        let d = s.usize(SLOTS);
        let op = s.weighted(&[12, 7, 8, 5, 14, 12, 6, 12, 5, 5, 12, 5, 4, 6, 6, 2]);
        match op {
            // A new value.
            0 => {
                let os = &puzzles[pz].orbits;
                let (op, k) = match s.usize(10) {
                    0 => (Op::Default(pz, d), Kd::P),
                    1 => (Op::Identity(pz, d), Kd::T),
                    2 => (Op::PatData(pz, d, pattern_data(os, &gp::pattern(s, os))), Kd::P),
                    3 => (Op::TrData(pz, d, trans_data(os, &gp::trans(s, os))), Kd::T),
                    4 => (Op::PatJson(pz, d, pdata_json(&pattern_data(os, &gp::pattern(s, os)), s.below(4))), Kd::P),
                    5 => (Op::TrJson(pz, d, tdata_json(&trans_data(os, &gp::trans(s, os)))), Kd::T),
                    6 | 7 => {
                        let m = gp::known_move(s, &puzzles[pz], true);
                        if m.amount == i32::MIN {
                            continue;
                        }
                        (Op::FromMove(pz, d, m), Kd::T)
                    }
                    _ => (Op::FromAlg(pz, d, gp::puzzle_alg(s, &puzzles[pz], 2, 3, 8, true)), Kd::T),
                };
                st[d] = Some((pz, k));
                ops.push(op);
            }
            // A value that is refused; the slot keeps what it has.
            1 => {
                let os = puzzles[pz].orbits.clone();
                let op = match s.usize(6) {
                    0 | 1 if !os.is_empty() => {
                        let mut x = pattern_data(&os, &gp::pattern(s, &os));
                        broken_pdata(s, &os, &mut x);
                        if pattern_fault(&os, &x).is_none() || !open_orbits(&os, &x).is_empty() {
                            continue;
                        }
                        if s.bool() {
                            Op::PatData(pz, d, x)
                        } else {
                            Op::PatJson(pz, d, pdata_json(&x, 0))
                        }
                    }
                    2 | 3 if !os.is_empty() => {
                        let mut x = trans_data(&os, &gp::trans(s, &os));
                        broken_tdata(s, &os, &mut x);
                        if trans_fault(&os, &x).is_none() || !open_orbits(&os, &x).is_empty() {
                            continue;
                        }
                        if s.bool() {
                            Op::TrData(pz, d, x)
                        } else {
                            Op::TrJson(pz, d, tdata_json(&x))
                        }
                    }
                    4 => Op::PatJson(pz, d, s.pick(&["", "{", "[]", "null", "{\"O0\":1}"]).to_string()),
                    _ => {
                        let mut a = gp::puzzle_alg(s, &puzzles[pz], 2, 3, 8, true);
                        gp::spoil(s, &puzzles[pz], &mut a);
                        match pick_slot(s, &st, |p, k| p == pz && k == Kd::P) {
                            Some(x) if s.bool() => Op::ApplyAlg(x, d, a),
                            _ => Op::FromAlg(pz, d, a),
                        }
                    }
                };
                ops.push(op);
            }
            // Copies.
            2 => {
                let Some(a) = pick_slot(s, &st, |_, k| k == Kd::P || k == Kd::T) else { continue };
                let k = st[a].unwrap();
                match s.usize(4) {
                    0 | 1 => ops.push(Op::Clone(a, d)),
                    2 if k.1 == Kd::P => ops.push(Op::FromRef(a, d)),
                    _ => {
                        // Assign over an existing value of the same kind, of whatever puzzle.
                        let Some(b) = pick_slot(s, &st, |_, k2| k2 == k.1) else { continue };
                        if a == b {
                            continue;
                        }
                        st[b] = Some(k);
                        ops.push(Op::CloneFrom(a, b));
                        continue;
                    }
                }
                st[d] = Some(k);
            }
            3 => {
                let Some(a) = pick_slot(s, &st, |_, k| k == Kd::P || k == Kd::T) else { continue };
                // The result is refused, and the slot unchanged, if the value is not a permutation.
                if a == d || st[d] != st[a] {
                    continue;
                }
                ops.push(Op::Roundtrip(a, d));
            }
            // Application.
            4 => {
                let Some(t) = pick_slot(s, &st, |_, k| k == Kd::T) else { continue };
                let pz = st[t].unwrap().0;
                let Some(a) = pick_slot(s, &st, |p, k| p == pz && (k == Kd::P || k == Kd::T)) else { continue };
                st[d] = st[a];
                ops.push(Op::Apply(a, t, d));
            }
            5 => {
                let Some(t) = pick_slot(s, &st, |_, k| k == Kd::T) else { continue };
                let pz = st[t].unwrap().0;
                let Some(a) = pick_slot(s, &st, |p, k| p == pz && (k == Kd::P || k == Kd::T)) else { continue };
                let Some(d) = pick_slot(s, &st, |p, k| p == pz && k == st[a].unwrap().1) else { continue };
                if d == a || d == t {
                    continue;
                }
                ops.push(Op::ApplyInto(a, t, d));
            }
            6 => {
                let Some(t) = pick_slot(s, &st, |_, k| k == Kd::T) else { continue };
                st[d] = st[t];
                ops.push(Op::Invert(t, d));
            }
            // Edits, inside the limits and not.
            7 => {
                let Some(a) = pick_slot(s, &st, |_, k| k == Kd::P || k == Kd::T) else { continue };
                let (pz, k) = st[a].unwrap();
                let os = &puzzles[pz].orbits;
                if os.is_empty() {
                    continue;
                }
                let w = s.usize(os.len());
                let (n, m) = (os[w].n, os[w].m);
                let near = |s: &mut Src, n: u8| match s.weighted(&[10, 1, 1]) {
                    0 => s.usize(n.max(1) as usize) as u8,
                    1 => n.wrapping_add(*s.pick(&[0u8, 1, 255])),
                    _ => s.byte(),
                };
                let i = near(s, n);
                let op = match (k, s.usize(5)) {
                    (_, 0) => Op::GetOut(a, w, i),
                    (Kd::P, 1 | 2) => Op::SetPiece(a, w, i, if s.bool() { near(s, n) } else { s.byte() }),
                    (Kd::P, _) => {
                        let md = if s.bool() { 0 } else { near(s, m) };
                        Op::SetOri(a, w, i, near(s, if md == 0 { m } else { md }), md)
                    }
                    (_, 1 | 2) => Op::SetPerm(a, w, i, near(s, n)),
                    _ => Op::SetDelta(a, w, i, near(s, m)),
                };
                ops.push(op);
            }
            8 => {
                let (Some(a), Some(b)) = (pick_slot(s, &st, |_, _| true), pick_slot(s, &st, |_, _| true)) else { continue };
                if a == b || st[a].unwrap().1 != st[b].unwrap().1 {
                    continue;
                }
                st.swap(a, b);
                ops.push(Op::Swap(a, b));
            }
            9 => {
                let Some(a) = pick_slot(s, &st, |_, _| true) else { continue };
                st[a] = None;
                ops.push(Op::Drop(a));
                if s.chance(1, 4) {
                    ops.push(Op::DropPuzzle(pz));
                }
            }
            // Buffers.
            10 => {
                let Some(b) = pick_slot(s, &st, |_, k| k == Kd::PB || k == Kd::TB) else {
                    if let Some(a) = pick_slot(s, &st, |_, k| k == Kd::P || k == Kd::T) {
                        let (p, k) = st[a].unwrap();
                        st[a] = None;
                        st[d] = Some((p, if k == Kd::P { Kd::PB } else { Kd::TB }));
                        ops.push(Op::Buffer(a, d));
                    }
                    continue;
                };
                let pz = st[b].unwrap().0;
                for _ in 0..1 + s.usize(3) {
                    let Some(t) = pick_slot(s, &st, |p, k| p == pz && k == Kd::T) else { break };
                    ops.push(Op::Feed(b, t));
                    if s.chance(1, 3) {
                        ops.push(Op::Read(b));
                    }
                }
            }
            11 => {
                let Some(b) = pick_slot(s, &st, |_, k| k == Kd::PB || k == Kd::TB) else { continue };
                let (p, k) = st[b].unwrap();
                st[d] = Some((p, if k == Kd::PB { Kd::P } else { Kd::T }));
                ops.push(Op::Current(b, d));
            }
            12 => {
                let Some(a) = pick_slot(s, &st, |_, k| k == Kd::P || k == Kd::T) else { continue };
                let (p, k) = st[a].unwrap();
                st[a] = None;
                st[d] = Some((p, if k == Kd::P { Kd::PB } else { Kd::TB }));
                ops.push(Op::Buffer(a, d));
            }
            13 => {
                let Some(a) = pick_slot(s, &st, |_, _| true) else { continue };
                let Some(b) = pick_slot(s, &st, |p, k| Some((p, k)) == st[a]) else { continue };
                match s.usize(4) {
                    0 => ops.push(Op::Read(a)),
                    1 => ops.push(Op::Thread(a)),
                    _ => ops.push(Op::Compare(a, b)),
                }
            }
            15 => {
                // Two buffers of one value, fed alike or not, and compared.
                let Some(a) = pick_slot(s, &st, |_, k| k == Kd::P || k == Kd::T) else { continue };
                let (pz, k) = st[a].unwrap();
                let e = s.usize(SLOTS);
                if d == e || a == d || a == e {
                    continue;
                }
                for x in [d, e] {
                    ops.push(Op::Clone(a, x));
                    ops.push(Op::Buffer(x, x));
                    st[x] = Some((pz, if k == Kd::P { Kd::PB } else { Kd::TB }));
                }
                let ts: Vec<usize> = (0..SLOTS).filter(|i| st[*i] == Some((pz, Kd::T))).collect();
                if ts.is_empty() {
                    continue;
                }
                for _ in 0..1 + s.usize(4) {
                    let t = *s.pick(&ts);
                    let u = if s.chance(1, 3) { *s.pick(&ts) } else { t };
                    ops.push(Op::Feed(d, t));
                    if s.chance(1, 6) {
                        ops.push(Op::Compare(d, e));
                    }
                    ops.push(Op::Feed(e, u));
                    if s.bool() {
                        ops.push(if s.bool() { Op::Compare(d, e) } else { Op::Compare(e, d) });
                    }
                }
            }
            _ => {
                let Some(a) = pick_slot(s, &st, |_, k| k == Kd::P) else { continue };
                let pz = st[a].unwrap().0;
                if s.bool() {
                    let m = if s.chance(1, 5) { gp::puzzle_move(s) } else { gp::known_move(s, &puzzles[pz], true) };
                    if m.amount == i32::MIN {
                        continue;
                    }
                    if puzzles[pz].resolve(&m).is_some() {
                        st[d] = st[a];
                    }
                    ops.push(Op::ApplyMove(a, d, m));
                } else {
                    st[d] = st[a];
                    ops.push(Op::ApplyAlg(a, d, gp::puzzle_alg(s, &puzzles[pz], 2, 3, 8, true)));
                }
            }
        }
    }
    Script { puzzles, ops }
}

fn show(sc: &Script) -> String {
    let mut o = String::new();
    for (i, p) in sc.puzzles.iter().enumerate() {
        o += &format!("puzzle {}: {}\n", i, brief(p));
    }
    for (i, op) in sc.ops.iter().enumerate() {
        o += &format!("{:3} {:?}\n", i, op);
    }
    o
}

// ------------------------------------------------------------------------------------ running

enum V {
    P(KPattern),
    T(KTransformation),
    PB(KPatternBuffer),
    TB(KTransformationBuffer),
}
#[derive(Clone, PartialEq, Debug)]
enum M {
    P(MP),
    T(MT),
}
struct Slot {
    pz: usize,
    v: V,
    m: M,
}

/// Observes a value completely.
fn observe(v: &V) -> M {
    match v {
        V::P(p) => M::P(pattern_from_lib(p)),
        V::T(t) => M::T(trans_from_lib(t)),
        V::PB(b) => M::P(pattern_from_lib(b.current())),
        V::TB(b) => M::T(trans_from_lib(b.current())),
    }
}
fn fnv<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

struct Exec<'a> {
    sc: &'a Script,
    handles: Vec<Option<KPuzzle>>,
    slots: Vec<Option<Slot>>,
    /// Whether library calls run in the guard arena.
    guard: bool,
    transcript: Vec<u64>,
}

impl<'a> Exec<'a> {
    fn new(sc: &'a Script, guard: bool) -> Self {
        let mut slots = vec![];
        slots.resize_with(SLOTS, || None);
        Exec { sc, handles: sc.puzzles.iter().map(|_| None).collect(), slots, guard, transcript: vec![] }
    }
    fn g<T>(&self, f: impl FnOnce() -> T) -> T {
        if self.guard {
            guarded(f)
        } else {
            f()
        }
    }
    /// The puzzle, from its handle, or from a value that is still alive, or built anew.
    fn puzzle(&mut self, i: usize) -> Result<KPuzzle, String> {
        if self.handles[i].is_none() {
            let live = self.slots.iter().flatten().find(|s| s.pz == i).map(|s| match &s.v {
                V::P(p) => self.g(|| p.kpuzzle().clone()),
                V::T(t) => self.g(|| t.kpuzzle().clone()),
                V::PB(b) => self.g(|| b.current().kpuzzle().clone()),
                V::TB(b) => self.g(|| b.current().kpuzzle().clone()),
            });
            let k = match live {
                Some(k) => k,
                None => self.g(|| KPuzzle::try_new(def_to_lib(&self.sc.puzzles[i])).map_err(|e| format!("the well-founded definition {} was refused: {}", brief(&self.sc.puzzles[i]), e)))?,
            };
            self.handles[i] = Some(k);
        }
        Ok(self.handles[i].as_ref().unwrap().clone())
    }
    fn put(&mut self, d: usize, pz: usize, v: V, m: M) {
        let old = self.slots[d].replace(Slot { pz, v, m });
        self.g(|| drop(old));
    }
    fn os(&self, pz: usize) -> &'a [MOrbit] {
        &self.sc.puzzles[pz].orbits
    }
    fn slot(&self, i: usize) -> &Slot {
        self.slots[i].as_ref().expect("script uses an empty slot")
    }
    fn p(&self, i: usize) -> (&KPattern, &MP) {
        match self.slot(i) {
            Slot { v: V::P(p), m: M::P(m), .. } => (p, m),
            _ => panic!("script: slot {} is no pattern", i),
        }
    }
    fn t(&self, i: usize) -> (&KTransformation, &MT) {
        match self.slot(i) {
            Slot { v: V::T(p), m: M::T(m), .. } => (p, m),
            _ => panic!("script: slot {} is no transformation", i),
        }
    }
    fn note(&mut self, x: impl Hash) {
        self.transcript.push(hash_of(x));
    }

    /// Runs one operation and updates the model.
    fn step(&mut self, op: &Op) -> R {
        use Op::*;
        match op {
            DropPuzzle(i) => {
                let h = self.handles[*i].take();
                self.g(|| drop(h));
            }
            Default(pz, d) => {
                let k = self.puzzle(*pz)?;
                let v = self.g(|| k.default_pattern());
                let m = pattern_of(self.os(*pz), &self.sc.puzzles[*pz].default);
                self.put(*d, *pz, V::P(v), M::P(m));
            }
            Identity(pz, d) => {
                let k = self.puzzle(*pz)?;
                let v = self.g(|| k.identity_transformation());
                let m = identity(self.os(*pz));
                self.put(*d, *pz, V::T(v), M::T(m));
            }
            PatData(pz, d, x) => {
                let k = self.puzzle(*pz)?;
                let r = self.g(|| KPattern::try_from_data(&k, &pdata_to_lib(x)));
                let want = pattern_fault(self.os(*pz), x).is_none();
                self.new_value(*pz, *d, r.map(V::P), want.then(|| M::P(pattern_of(self.os(*pz), x))))?;
            }
            TrData(pz, d, x) => {
                let k = self.puzzle(*pz)?;
                let r = self.g(|| KTransformation::try_from_data(k, &tdata_to_lib(x)));
                let want = trans_fault(self.os(*pz), x).is_none();
                self.new_value(*pz, *d, r.map(V::T), want.then(|| M::T(trans_of(self.os(*pz), x))))?;
            }
            PatJson(pz, d, j) => {
                let k = self.puzzle(*pz)?;
                let r = self.g(|| KPattern::try_from_json(&k, j.as_bytes()));
                let os = self.os(*pz);
                let x = serde_json::from_str(j).ok().and_then(|v| super::defs::model_pdata(&v).ok().flatten()).filter(|x| pattern_fault(os, x).is_none());
                let m = x.map(|x| M::P(pattern_of(os, &x)));
                // What `[]` or `null` mean as pattern data is judged by C16.
                if m.is_none() && r.is_ok() {
                    return Ok(());
                }
                self.new_value(*pz, *d, r.map(V::P), m)?;
            }
            TrJson(pz, d, j) => {
                let k = self.puzzle(*pz)?;
                let r = self.g(|| KTransformation::try_from_json(&k, j.as_bytes()));
                let os = self.os(*pz);
                let x = serde_json::from_str(j).ok().and_then(|v| super::defs::model_tdata(&v).ok().flatten()).filter(|x| trans_fault(os, x).is_none());
                self.new_value(*pz, *d, r.map(V::T), x.map(|x| M::T(trans_of(os, &x))))?;
            }
            FromAlg(pz, d, a) => {
                let k = self.puzzle(*pz)?;
                let a2 = self.g(|| to_lib(a));
                let r = self.g(|| k.transformation_from_alg(&a2));
                self.g(|| drop(a2));
                self.new_value(*pz, *d, r.map(V::T), self.sc.puzzles[*pz].eval(a).ok().map(M::T))?;
            }
            FromMove(pz, d, m) => {
                let k = self.puzzle(*pz)?;
                let m2 = self.g(|| move_to_lib(m));
                let r = self.g(|| k.transformation_from_move(&m2));
                self.g(|| drop(m2));
                self.new_value(*pz, *d, r.map(V::T), self.sc.puzzles[*pz].eval_move(m).ok().map(M::T))?;
            }
            ApplyAlg(a, d, x) => {
                let pz = self.slot(*a).pz;
                let x2 = self.g(|| to_lib(x));
                let (v, m) = self.p(*a);
                let r = self.g(|| v.apply_alg(&x2));
                let want = self.sc.puzzles[pz].eval(x).ok().map(|t| M::P(apply(self.os(pz), m, &t)));
                self.g(|| drop(x2));
                self.new_value(pz, *d, r.map(V::P), want)?;
            }
            ApplyMove(a, d, x) => {
                let pz = self.slot(*a).pz;
                let x2 = self.g(|| move_to_lib(x));
                let (v, m) = self.p(*a);
                let r = self.g(|| v.apply_move(&x2));
                let want = self.sc.puzzles[pz].eval_move(x).ok().map(|t| M::P(apply(self.os(pz), m, &t)));
                self.g(|| drop(x2));
                self.new_value(pz, *d, r.map(V::P), want)?;
            }
            Clone(a, d) => {
                let s = self.slot(*a);
                let (pz, m) = (s.pz, s.m.clone());
                let v = match &s.v {
                    V::P(p) => V::P(self.g(|| p.clone())),
                    V::T(t) => V::T(self.g(|| t.clone())),
                    _ => unreachable!(),
                };
                self.put(*d, pz, v, m);
            }
            FromRef(a, d) => {
                let pz = self.slot(*a).pz;
                let (p, m) = self.p(*a);
                let (v, m) = (self.g(|| KPattern::from(p)), m.clone());
                self.put(*d, pz, V::P(v), M::P(m));
            }
            CloneFrom(a, d) => {
                let mut dst = self.slots[*d].take().unwrap();
                let s = self.slot(*a);
                dst.pz = s.pz;
                dst.m = s.m.clone();
                match (&mut dst.v, &s.v) {
                    (V::P(x), V::P(y)) => self.g(|| x.clone_from(y)),
                    (V::T(x), V::T(y)) => self.g(|| x.clone_from(y)),
                    _ => unreachable!(),
                }
                self.slots[*d] = Some(dst);
            }
            Roundtrip(a, d) => {
                let s = self.slot(*a);
                let pz = s.pz;
                let os = self.os(pz);
                let m = s.m.clone();
                let (r, ok) = match &s.v {
                    V::P(p) => (self.g(|| KPattern::try_from_data(p.kpuzzle(), &p.to_data())).map(V::P), true),
                    V::T(t) => {
                        let M::T(m) = &m else { unreachable!() };
                        (self.g(|| KTransformation::try_from_data(t.kpuzzle(), &t.to_data())).map(V::T), trans_fault(os, &trans_data(os, m)).is_none())
                    }
                    _ => unreachable!(),
                };
                self.new_value(pz, *d, r, ok.then_some(m))?;
            }
            Apply(a, t, d) => {
                let pz = self.slot(*a).pz;
                let os = self.os(pz);
                let (t, mt) = self.t(*t);
                let s = self.slot(*a);
                let (v, m) = match (&s.v, &s.m) {
                    (V::P(p), M::P(m)) => (V::P(self.g(|| p.apply_transformation(t))), M::P(apply(os, m, mt))),
                    (V::T(p), M::T(m)) => (V::T(self.g(|| p.apply_transformation(t))), M::T(compose(os, m, mt))),
                    _ => unreachable!(),
                };
                self.put(*d, pz, v, m);
            }
            ApplyInto(a, t, d) => {
                let mut dst = self.slots[*d].take().unwrap();
                let os = self.os(dst.pz);
                let (t, mt) = self.t(*t);
                let s = self.slot(*a);
                match (&s.v, &s.m, &mut dst.v) {
                    (V::P(p), M::P(m), V::P(x)) => {
                        self.g(|| p.apply_transformation_into(t, x));
                        dst.m = M::P(apply(os, m, mt));
                    }
                    (V::T(p), M::T(m), V::T(x)) => {
                        self.g(|| p.apply_transformation_into(t, x));
                        dst.m = M::T(compose(os, m, mt));
                    }
                    _ => unreachable!(),
                }
                self.slots[*d] = Some(dst);
            }
            Invert(t, d) => {
                let pz = self.slot(*t).pz;
                let os = self.os(pz);
                let (x, m) = self.t(*t);
                let v = self.g(|| x.invert());
                let m = if trans_fault(os, &trans_data(os, m)).is_none() {
                    inverse(os, m)
                } else {
                    // Not a permutation, after single entries were set: there is no inverse to expect.
                    trans_from_lib(&v)
                };
                self.put(*d, pz, V::T(v), M::T(m));
            }
            SetPiece(a, w, i, x) => {
                let mut s = self.slots[*a].take().unwrap();
                let o = &self.os(s.pz)[*w];
                let k = self.puzzle_of(&s);
                let (V::P(p), M::P(m)) = (&mut s.v, &mut s.m) else { unreachable!() };
                let info = k.orbit_info_iter().nth(*w).unwrap();
                let got = self.g(|| catches(|| p.set_piece(info, *i, *x)));
                let ok = *i < o.n;
                if ok {
                    m.0[*w][*i as usize].0 = *x;
                }
                self.slots[*a] = Some(s);
                ensure!(got.is_ok() == ok, "set_piece at {} of {} is {}", i, o.n, if ok { "refused" } else { "not refused" });
            }
            SetOri(a, w, i, ori, md) => {
                let mut s = self.slots[*a].take().unwrap();
                let o = &self.os(s.pz)[*w];
                let k = self.puzzle_of(&s);
                let (V::P(p), M::P(m)) = (&mut s.v, &mut s.m) else { unreachable!() };
                let info = k.orbit_info_iter().nth(*w).unwrap();
                let x = OrientationWithMod { orientation: *ori, orientation_mod: *md };
                let got = self.g(|| catches(|| p.set_orientation_with_mod(info, *i, &x)));
                let ok = *i < o.n && if *md == 0 { *ori < o.m } else { ori < md && o.m % md == 0 };
                if ok {
                    let e = &mut m.0[*w][*i as usize];
                    (e.1, e.2) = (*ori, *md);
                }
                self.slots[*a] = Some(s);
                ensure!(got.is_ok() == ok, "set_orientation_with_mod({}, {} of modulus {}) of {} pieces, {} orientations is {}", i, ori, md, o.n, o.m, if ok { "refused" } else { "not refused" });
            }
            SetPerm(a, w, i, x) => {
                let mut s = self.slots[*a].take().unwrap();
                let o = &self.os(s.pz)[*w];
                let k = self.puzzle_of(&s);
                let (V::T(p), M::T(m)) = (&mut s.v, &mut s.m) else { unreachable!() };
                let info = k.orbit_info_iter().nth(*w).unwrap();
                let got = self.g(|| catches(|| p.set_permutation_idx(info, *i, *x)));
                let ok = *i < o.n && *x < o.n;
                if ok {
                    m.0[*w].perm[*i as usize] = *x;
                }
                self.slots[*a] = Some(s);
                ensure!(got.is_ok() == ok, "set_permutation_idx({}, {}) of {} is {}", i, x, o.n, if ok { "refused" } else { "not refused" });
            }
            SetDelta(a, w, i, x) => {
                let mut s = self.slots[*a].take().unwrap();
                let o = &self.os(s.pz)[*w];
                let k = self.puzzle_of(&s);
                let (V::T(p), M::T(m)) = (&mut s.v, &mut s.m) else { unreachable!() };
                let info = k.orbit_info_iter().nth(*w).unwrap();
                let got = self.g(|| catches(|| p.set_orientation_delta(info, *i, *x)));
                let ok = *i < o.n && *x < o.m;
                if ok {
                    m.0[*w].delta[*i as usize] = *x;
                }
                self.slots[*a] = Some(s);
                ensure!(got.is_ok() == ok, "set_orientation_delta({}, {}) of {} pieces, {} orientations is {}", i, x, o.n, o.m, if ok { "refused" } else { "not refused" });
            }
            GetOut(a, w, i) => {
                let s = self.slot(*a);
                let o = &self.os(s.pz)[*w];
                let k = self.puzzle_of(s);
                let info = k.orbit_info_iter().nth(*w).unwrap();
                let got = match &s.v {
                    V::P(p) => self.g(|| (catches(|| p.get_piece(info, *i) as u64), catches(|| {
                        let x = p.get_orientation_with_mod(info, *i);
                        x.orientation as u64 | (x.orientation_mod as u64) << 8
                    }))),
                    V::T(t) => self.g(|| (catches(|| t.get_permutation_idx(info, *i) as u64), catches(|| t.get_orientation_delta(info, *i) as u64))),
                    _ => unreachable!(),
                };
                let exp = (*i < o.n).then(|| match &s.m {
                    M::P(m) => {
                        let e = m.0[*w][*i as usize];
                        (e.0 as u64, e.1 as u64 | (e.2 as u64) << 8)
                    }
                    M::T(m) => (m.0[*w].perm[*i as usize] as u64, m.0[*w].delta[*i as usize] as u64),
                });
                let got = (got.0.ok(), got.1.ok());
                ensure_eq!(got, (exp.map(|x| x.0), exp.map(|x| x.1)), "reading index {} of {}", i, o.n);
            }
            Swap(a, b) => {
                let mut x = self.slots[*a].take().unwrap();
                let mut y = self.slots[*b].take().unwrap();
                match (&mut x.v, &mut y.v) {
                    (V::P(p), V::P(q)) => std::mem::swap(p, q),
                    (V::T(p), V::T(q)) => std::mem::swap(p, q),
                    (V::PB(p), V::PB(q)) => std::mem::swap(p, q),
                    (V::TB(p), V::TB(q)) => std::mem::swap(p, q),
                    _ => unreachable!(),
                }
                std::mem::swap(&mut x.m, &mut y.m);
                std::mem::swap(&mut x.pz, &mut y.pz);
                self.slots[*a] = Some(x);
                self.slots[*b] = Some(y);
            }
            Drop(a) => {
                let old = self.slots[*a].take();
                self.g(|| drop(old));
            }
            Buffer(a, d) => {
                let s = self.slots[*a].take().unwrap();
                let v = match s.v {
                    V::P(p) => V::PB(self.g(|| KPatternBuffer::from(p))),
                    V::T(t) => V::TB(self.g(|| KTransformationBuffer::from(t))),
                    _ => unreachable!(),
                };
                self.put(*d, s.pz, v, s.m);
            }
            Feed(b, t) => {
                let mut s = self.slots[*b].take().unwrap();
                let os = self.os(s.pz);
                let (t, mt) = self.t(*t);
                match (&mut s.v, &mut s.m) {
                    (V::PB(p), M::P(m)) => {
                        self.g(|| p.apply_transformation(t));
                        *m = apply(os, m, mt);
                    }
                    (V::TB(p), M::T(m)) => {
                        self.g(|| p.apply_transformation(t));
                        *m = compose(os, m, mt);
                    }
                    _ => unreachable!(),
                }
                self.slots[*b] = Some(s);
            }
            Current(b, d) => {
                let s = self.slot(*b);
                let (pz, m) = (s.pz, s.m.clone());
                let v = match &s.v {
                    V::PB(b) => V::P(self.g(|| b.current().clone())),
                    V::TB(b) => V::T(self.g(|| b.current().clone())),
                    _ => unreachable!(),
                };
                self.put(*d, pz, v, m);
            }
            Compare(a, b) => {
                let (x, y) = (self.slot(*a), self.slot(*b));
                let want = x.m == y.m;
                let (got, hashes) = match (&x.v, &y.v) {
                    (V::P(p), V::P(q)) => (self.g(|| (p == q, !(p != q))), Some(self.g(|| (fnv(p), fnv(q))))),
                    (V::T(p), V::T(q)) => (self.g(|| (p == q, !(p != q))), None),
                    (V::PB(p), V::PB(q)) => (self.g(|| (p.current() == q.current(), !(p.current() != q.current()))), Some(self.g(|| (fnv(p.current()), fnv(q.current()))))),
                    (V::TB(p), V::TB(q)) => (self.g(|| (p == q, p.current() == q.current())), None),
                    _ => unreachable!(),
                };
                ensure_eq!(got, (want, want), "comparison of slots {} and {}", a, b);
                if let Some((h, k)) = hashes {
                    ensure!(!want || h == k, "equal values hash differently");
                    self.note((h, k));
                }
                self.note(got);
            }
            Read(a) => {
                let s = self.slot(*a);
                let (text, hash, data) = match &s.v {
                    V::P(p) => self.g(|| (format!("{:?}", p), fnv(p), M::P(pattern_of(self.os(s.pz), &pdata_from_lib(&p.to_data()))))),
                    V::PB(b) => self.g(|| (format!("{:?}", b.current()), fnv(b.current()), M::P(pattern_of(self.os(s.pz), &pdata_from_lib(&b.current().to_data()))))),
                    V::T(t) => self.g(|| (format!("{:?}", t), 0, M::T(trans_of(self.os(s.pz), &tdata_from_lib(&t.to_data()))))),
                    V::TB(b) => self.g(|| (format!("{:?}", b.current()), 0, M::T(trans_of(self.os(s.pz), &tdata_from_lib(&b.current().to_data()))))),
                };
                ensure_eq!(data, s.m, "to_data()");
                // The order of orbits in the text varies.
                let mut cs: Vec<char> = text.chars().collect();
                cs.sort_unstable();
                self.g(|| drop(text));
                self.g(|| drop(data));
                self.note((cs, hash));
            }
            Thread(a) => {
                // Cloned, moved to another thread, read and dropped there.
                let s = self.slot(*a);
                let want = s.m.clone();
                let v = match &s.v {
                    V::P(p) => V::P(self.g(|| p.clone())),
                    V::T(t) => V::T(self.g(|| t.clone())),
                    V::PB(b) => V::P(self.g(|| b.current().clone())),
                    V::TB(b) => V::T(self.g(|| b.current().clone())),
                };
                let v = Any(v);
                let got = std::thread::scope(|sc| sc.spawn(move || observe(&v.take())).join());
                ensure!(got.as_ref().is_ok_and(|g| *g == want), "a value read in another thread is {:?}, not {:?}", got.ok(), want);
            }
        }
        Ok(())
    }
    fn puzzle_of(&self, s: &Slot) -> KPuzzle {
        match &s.v {
            V::P(p) => p.kpuzzle().clone(),
            V::T(p) => p.kpuzzle().clone(),
            V::PB(p) => p.current().kpuzzle().clone(),
            V::TB(p) => p.current().kpuzzle().clone(),
        }
    }
    fn new_value<E: std::fmt::Display>(&mut self, pz: usize, d: usize, got: Result<V, E>, want: Option<M>) -> R {
        match (got, want) {
            (Ok(v), Some(m)) => self.put(d, pz, v, m),
            (Err(e), None) => {
                let text = self.g(|| e.to_string());
                self.note(&text);
                self.g(|| drop((e, text)));
            }
            (Ok(_), None) => return Err("an invalid value is accepted".into()),
            (Err(e), Some(_)) => return Err(format!("a valid value is refused: {}", e)),
        }
        Ok(())
    }
    /// Every slot against the model.
    fn check(&mut self, strict: bool) -> R {
        for i in 0..SLOTS {
            let Some(s) = &self.slots[i] else { continue };
            let got = observe(&s.v);
            let same = got == s.m;
            if !same && !strict {
                self.note("differs");
                self.slots[i].as_mut().unwrap().m = got;
                continue;
            }
            if !same {
                return Err(format!("slot {} is {:?}, but by the history it is {:?}", i, got, s.m));
            }
            let h = hash_of(format!("{:?}", got));
            self.note(h);
        }
        Ok(())
    }
    fn run(&mut self) -> R {
        for (i, op) in self.sc.ops.iter().enumerate() {
            self.step(op).and_then(|_| self.check(true)).map_err(|e| format!("after operation {} ({:?}): {}", i, op, e))?;
        }
        Ok(())
    }
    /// Runs everything whatever the values are: wrong values are for C17 to report.
    fn run_on(&mut self) -> bool {
        let mut wrong = false;
        for op in &self.sc.ops {
            if let Err(e) | Ok(Err(e)) = catches(|| self.step(op)) {
                self.note(e);
                wrong = true;
            }
            let _ = self.check(false);
        }
        wrong
    }
    /// Drops everything, and returns the transcript.
    fn finish(self) -> Vec<u64> {
        let Exec { handles, slots, guard, transcript, .. } = self;
        let f = move || {
            drop(handles);
            drop(slots);
        };
        if guard {
            guarded(f)
        } else {
            f()
        }
        transcript
    }
}

fn classify(c: &mut Case, sc: &Script) {
    c.describe(|| show(sc));
    c.key(format!("{:?}", (&sc.puzzles, &sc.ops)));
    let uses = |f: fn(&Op) -> bool| sc.ops.iter().any(f);
    c.nontrivial_if(sc.ops.len() >= 6 && uses(|o| matches!(o, Op::Apply(..) | Op::ApplyInto(..) | Op::Feed(..) | Op::Invert(..))));
    c.label_if(uses(|o| matches!(o, Op::ApplyInto(..))), "application into an existing value");
    c.label_if(uses(|o| matches!(o, Op::Feed(..))), "buffer");
    c.label_if(uses(|o| matches!(o, Op::SetPerm(..) | Op::SetDelta(..) | Op::SetPiece(..) | Op::SetOri(..))), "edit");
    c.label_if(uses(|o| matches!(o, Op::DropPuzzle(..))), "puzzle handle dropped before its values");
    c.label_if(sc.puzzles.len() > 1, "several puzzles");
}

fn c17_case(c: &mut Case) -> R {
    let sc = script(&mut c.s, false);
    classify(c, &sc);
    let mut e = Exec::new(&sc, false);
    e.run()?;
    e.finish();
    Ok(())
}
fn c17_big(c: &mut Case) -> R {
    let sc = script(&mut c.s, true);
    classify(c, &sc);
    let mut e = Exec::new(&sc, false);
    e.run()?;
    e.finish();
    Ok(())
}
/// A buffer fed a long sequence, read at random moments.
fn c17_buffer(c: &mut Case) -> R {
    let max = *c.s.pick(&[4u8, 24, 100]);
    let pp = PuzzleParams { max_pieces: max, max_moves: 3, conventional: false, derived: false, shadow: false };
    let p = gp::puzzle(&mut c.s, &pp);
    let os = &p.orbits;
    let k = super::puz::lib_puzzle(&p)?;
    let ts: Vec<MT> = (0..1 + c.s.usize(3)).map(|_| gp::trans(&mut c.s, os)).collect();
    let lts = ts.iter().map(|t| trans_to_lib(&k, os, t)).collect::<Result<Vec<_>, _>>()?;
    let start = gp::pattern(&mut c.s, os);
    let (mut pm, mut tm) = (start.clone(), gp::trans(&mut c.s, os));
    let mut pb = KPatternBuffer::from(pattern_to_lib(&k, os, &start)?);
    let mut tb = KTransformationBuffer::from(trans_to_lib(&k, os, &tm)?);
    let n = c.s.size(60, 400);
    c.describe(|| format!("{} transformations fed to buffers of {}", n, brief(&p)));
    c.key((os, &ts, n, &start));
    c.nontrivial_if(n >= 3 && ts.iter().any(|t| *t != identity(os)));
    for step in 0..n {
        let i = c.s.usize(ts.len());
        pb.apply_transformation(&lts[i]);
        tb.apply_transformation(&lts[i]);
        pm = apply(os, &pm, &ts[i]);
        tm = compose(os, &tm, &ts[i]);
        match c.s.usize(5) {
            0 => ensure_eq!(pattern_from_lib(pb.current()), pm, "pattern buffer after {} steps", step + 1),
            1 => ensure_eq!(trans_from_lib(tb.current()), tm, "transformation buffer after {} steps", step + 1),
            2 => {
                let other = KTransformationBuffer::from(trans_to_lib(&k, os, &tm)?);
                ensure!(tb == other && other == tb, "a buffer differs from a fresh one with the same value after {} steps", step + 1);
            }
            _ => {}
        }
    }
    ensure_eq!(pattern_from_lib(pb.current()), pm, "pattern buffer after {} steps", n);
    ensure_eq!(trans_from_lib(tb.current()), tm, "transformation buffer after {} steps", n);
    Ok(())
}

/// Puzzles of the same shape and move names, one after the other (most of them dropped before the next one is
/// made, as when a program loads one definition after another), each answering by its own definition.
fn c17_successors(c: &mut Case) -> R {
    let max = *c.s.pick(&[3u8, 6, 12]);
    let pp = PuzzleParams { max_pieces: max, max_moves: 4, conventional: false, derived: true, shadow: false };
    let base = gp::puzzle(&mut c.s, &pp);
    let mut variants = vec![base.clone()];
    for _ in 0..1 + c.s.usize(3) {
        let mut v = base.clone();
        for (_, d) in v.moves.iter_mut() {
            if c.s.chance(2, 3) {
                *d = trans_data(&base.orbits, &gp::trans(&mut c.s, &base.orbits));
            }
        }
        if c.s.chance(1, 2) {
            v.default = pattern_data(&base.orbits, &gp::pattern(&mut c.s, &base.orbits));
        }
        for (_, a) in v.derived.iter_mut().flatten() {
            if c.s.chance(1, 3) && !a.0.is_empty() {
                // Stays well-founded.
                a.0.pop();
            }
        }
        // One definition may become another one's inverse, and costs may only shrink.
        variants.push(v);
    }
    let n = 2 + c.s.size(6, 30);
    let algs: Vec<MAlg> = (0..1 + c.s.usize(3)).map(|_| gp::puzzle_alg(&mut c.s, &base, 2, 3, 8, true)).collect();
    let moves: Vec<MMove> = (0..1 + c.s.usize(3)).map(|_| gp::known_move(&mut c.s, &base, false)).filter(|m| m.amount != i32::MIN).collect();
    let os = &base.orbits;
    let visits: Vec<(usize, u64, bool)> = (0..n).map(|_| (c.s.usize(variants.len()), c.s.below(16), c.s.chance(1, 6))).collect();
    c.describe(|| format!("{} puzzles in turn of {}: {:?}", n, brief(&base), visits));
    c.key((os, &algs, &moves, &visits, &base.moves));
    c.nontrivial_if(visits.windows(2).any(|w| w[0].0 != w[1].0 && variants[w[0].0] != variants[w[1].0]));
    let mut kept: Vec<(usize, KPuzzle)> = vec![];
    let ask = |v: usize, k: &KPuzzle, what: u64, at: usize| -> R {
        let p = &variants[v];
        for (i, m) in moves.iter().enumerate() {
            if what & 1 != 0 || i == 0 {
                let t = k.transformation_from_move(&move_to_lib(m)).map_err(|e| format!("{} refused: {}", print_move(m), e))?;
                ensure_eq!(Ok(trans_from_lib(&t)), p.eval_move(m), "the move {} on puzzle {} (definition {})", print_move(m), at, v);
            }
        }
        if what & 2 != 0 {
            ensure_eq!(pattern_from_lib(&k.default_pattern()), pattern_of(os, &p.default), "the default pattern of puzzle {} (definition {})", at, v);
        }
        if what & 4 != 0 {
            for a in &algs {
                let t = k.transformation_from_alg(&to_lib(a)).map_err(|e| format!("{:?} refused: {}", print_alg(a), e))?;
                let want = p.eval(a);
                ensure_eq!(Ok(trans_from_lib(&t)), want, "the alg {:?} on puzzle {} (definition {})", print_alg(a), at, v);
                let q = k.default_pattern().apply_alg(&to_lib(a)).map_err(|e| format!("{:?} refused: {}", print_alg(a), e))?;
                ensure_eq!(pattern_from_lib(&q), apply(os, &pattern_of(os, &p.default), &want.unwrap()), "the default pattern after {:?} on puzzle {} (definition {})", print_alg(a), at, v);
            }
        }
        if what & 8 != 0 {
            ensure_eq!(trans_from_lib(&k.identity_transformation()), identity(os), "the identity of puzzle {}", at);
        }
        Ok(())
    };
    for (at, (v, what, keep)) in visits.iter().enumerate() {
        let k = super::puz::lib_puzzle(&variants[*v])?;
        ask(*v, &k, *what, at)?;
        if !kept.is_empty() && what & 1 != 0 {
            let (w, old) = &kept[at % kept.len()];
            ask(*w, old, *what, at)?;
        }
        if *keep {
            kept.push((*v, k));
        }
    }
    Ok(())
}

/// The history in the guard arena, twice, with different contents of fresh memory and different placement.
fn memory(c: &mut Case, sc: &Script) -> R {
    // Warm up whatever is built once.
    let base = {
        let mut e = Exec::new(sc, false);
        let wrong = e.run_on();
        let t = e.finish();
        c.label_if(wrong, "values differ from the model");
        t
    };
    let mut grown = [0i64; 3];
    for (round, (poison, at_start)) in [(0x01u8, false), (0xFE, true), (0x5A, false)].into_iter().enumerate() {
        guard_setup(poison, at_start);
        let before = guard_live() as i64;
        let mut e = Exec::new(sc, true);
        e.run_on();
        let t = e.finish();
        grown[round] = guard_live() as i64 - before;
        ensure!(
            t == base,
            "the history gives different results when fresh memory holds {:#04x} ({}): it depends on memory never written (first difference at observation {} of {})",
            poison,
            if at_start { "values at the start of pages" } else { "values at the end of pages" },
            t.iter().zip(&base).position(|(a, b)| a != b).unwrap_or(t.len().min(base.len())),
            base.len()
        );
    }
    ensure!(grown.iter().any(|g| *g <= 0), "memory is leaked: {:?} allocations remain after each run of the history and the drop of everything", grown);
    guard_reset();
    Ok(())
}
fn c18_case(c: &mut Case) -> R {
    let sc = script(&mut c.s, false);
    classify(c, &sc);
    memory(c, &sc)
}
fn c18_big(c: &mut Case) -> R {
    let sc = script(&mut c.s, true);
    classify(c, &sc);
    memory(c, &sc)
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "Random histories of up to 80 operations over nine slots and up to three puzzles (some of them two instances of one definition): values made by every constructor, refused constructions, clone, clone_from, From<&_>, application into new and existing values, inversion, algs and moves, single-entry edits inside and outside the limits, swaps, drops (also of the puzzle handle before its values), buffers made, fed, read and compared, values read in another thread. After every operation every slot is read entry by entry and compared with a plain model of the history. Long feeds of buffers are checked at random moments. Up to 30 puzzles of one shape with the same move names and different definitions are made, asked and mostly dropped in turn, each compared with its own definition. Non-trivial: six operations or more with an application, inversion or feed; distinct by history.",
        assumptions: &["Each operation uses values of one puzzle.", "The inverse of a value that single-entry edits made no permutation is not specified; the model takes over what the code gives."],
        subs: vec![Sub::random("histories", 25_000, 500_000, c17_case), Sub::random("big", 1_500, 30_000, c17_big), Sub::random("buffers", 4_000, 80_000, c17_buffer), Sub::random("successors", 6_000, 120_000, c17_successors)],
    }
}
pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "The histories of C17 are run with a guarding allocator: every allocation made by the library lies on pages of its own against an inaccessible page (after it, or before it), fresh memory holds a chosen byte, released memory becomes inaccessible, and sizes and alignments at release, double release, zero-sized requests and bytes written beside the value are checked. Each history is run plainly and three times guarded with different fill bytes and placement, and everything observed must be the same each time; a history that ends with more live allocations each time leaks. Non-trivial: six operations or more with an application, inversion or feed; distinct by history.",
        assumptions: &["Each operation uses values of one puzzle.", "Safe operations only: the `unsafe` functions of the interface are not called."],
        subs: vec![Sub::random("histories", 2_500, 60_000, c18_case), Sub::random("big", 400, 10_000, c18_big)],
    }
}
