//! Physical 3x3x3 and 2x2x2 cubes: pieces at coordinates, turned in space.
//! x points right, y up, z to the front.
use super::alg::*;
use super::puz::{TData, TOrbit};

pub type V3 = [i8; 3];
/// A rotation: the images of the three axes.
pub type Rot = [V3; 3];
const ID: Rot = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];

fn dot(a: V3, b: V3) -> i8 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
/// A clockwise quarter turn of `v`, seen by someone who looks at the face `axis` from outside.
fn turn(axis: V3, v: V3) -> V3 {
    let c = cross(v, axis);
    let d = dot(v, axis);
    [c[0] + d * axis[0], c[1] + d * axis[1], c[2] + d * axis[2]]
}
fn rotate(r: &Rot, v: V3) -> V3 {
    let mut o = [0; 3];
    for k in 0..3 {
        for (i, x) in o.iter_mut().enumerate() {
            *x += r[k][i] * v[k];
        }
    }
    o
}
/// First `a`, then `b`.
fn then(a: &Rot, b: &Rot) -> Rot {
    [rotate(b, a[0]), rotate(b, a[1]), rotate(b, a[2])]
}
pub fn normal(face: char) -> V3 {
    match face {
        'R' => [1, 0, 0],
        'L' => [-1, 0, 0],
        'U' => [0, 1, 0],
        'D' => [0, -1, 0],
        'F' => [0, 0, 1],
        'B' => [0, 0, -1],
        _ => panic!("no face {}", face),
    }
}

/// Slots in standard order. The first letter is the facelet orientation 0 is about; corners are
/// listed clockwise from there.
pub const EDGES: [&str; 12] = ["UF", "UR", "UB", "UL", "DF", "DR", "DB", "DL", "FR", "FL", "BR", "BL"];
pub const CORNERS: [&str; 8] = ["URF", "UBR", "ULB", "UFL", "DFR", "DLF", "DBL", "DRB"];
/// Centres, with the side of the face their reference mark points to.
pub const CENTERS: [&str; 6] = ["UB", "LU", "FU", "RU", "BU", "DF"];

fn sum(name: &str) -> V3 {
    let mut p = [0; 3];
    for f in name.chars() {
        let n = normal(f);
        for i in 0..3 {
            p[i] += n[i];
        }
    }
    p
}

/// What an alg does to every place of the cube: where its piece goes, and how it is turned.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Effect(Vec<(V3, Rot)>);

fn places() -> impl Iterator<Item = V3> {
    (0..27).map(|i: i8| [i / 9 - 1, i / 3 % 3 - 1, i % 3 - 1])
}
fn place(v: V3) -> usize {
    ((v[0] + 1) as usize) * 9 + ((v[1] + 1) as usize) * 3 + (v[2] + 1) as usize
}

impl Effect {
    pub fn none() -> Effect {
        Effect(places().map(|p| (p, ID)).collect())
    }
    /// Quarter turns, clockwise seen from `face`, of the layers at the given distances from the
    /// middle towards `face`.
    pub fn turn(face: char, layers: &[i8], times: i64) -> Effect {
        let axis = normal(face);
        let mut e = Effect::none();
        for _ in 0..times.rem_euclid(4) {
            for (p, r) in e.0.iter_mut() {
                if layers.contains(&dot(*p, axis)) {
                    let t: Rot = [turn(axis, ID[0]), turn(axis, ID[1]), turn(axis, ID[2])];
                    *p = turn(axis, *p);
                    *r = then(r, &t);
                }
            }
        }
        e
    }
    /// First `self`, then `b`.
    pub fn then(&self, b: &Effect) -> Effect {
        Effect(
            self.0
                .iter()
                .map(|(p, r)| {
                    let (q, s) = &b.0[place(*p)];
                    (*q, then(r, s))
                })
                .collect(),
        )
    }
    pub fn back(&self) -> Effect {
        let mut e = Effect::none();
        for (i, home) in places().enumerate() {
            let (p, r) = &self.0[i];
            // The inverse of a rotation is its transpose.
            let mut t = ID;
            for a in 0..3 {
                for b in 0..3 {
                    t[a][b] = r[b][a];
                }
            }
            e.0[place(*p)] = (home, t);
        }
        e
    }
    pub fn power(&self, n: i64) -> Effect {
        let mut base = if n < 0 { self.back() } else { self.clone() };
        let mut k = n.unsigned_abs();
        let mut e = Effect::none();
        while k > 0 {
            if k & 1 == 1 {
                e = e.then(&base);
            }
            base = base.then(&base);
            k >>= 1;
        }
        e
    }
    /// All that can be seen of it: everything but the piece in the middle.
    pub fn visible(&self) -> Vec<(V3, Rot)> {
        let mut v = self.0.clone();
        v[place([0, 0, 0])] = ([0; 3], ID);
        v
    }
    fn of_slot(&self, name: &str) -> (V3, &Rot) {
        let (p, r) = &self.0[place(sum(name))];
        (*p, r)
    }
    fn orbit(&self, slots: &[&str]) -> TOrbit {
        let n = slots.len();
        let mut o = TOrbit { perm: vec![0; n], delta: vec![0; n] };
        for (j, name) in slots.iter().enumerate() {
            let (p, r) = self.of_slot(name);
            let i = slots.iter().position(|s| sum(s) == p).unwrap();
            let mark = rotate(r, normal(name.chars().next().unwrap()));
            o.perm[i] = j as u8;
            o.delta[i] = slots[i].chars().position(|f| normal(f) == mark).unwrap() as u8;
        }
        o
    }
    fn centers(&self) -> TOrbit {
        let mut o = TOrbit { perm: vec![0; 6], delta: vec![0; 6] };
        let face = |s: &str| normal(s.chars().next().unwrap());
        let side = |s: &str| normal(s.chars().nth(1).unwrap());
        for (j, name) in CENTERS.iter().enumerate() {
            let (p, r) = &self.0[place(face(name))];
            let i = CENTERS.iter().position(|s| face(s) == *p).unwrap();
            let mark = rotate(r, side(name));
            let mut v = side(CENTERS[i]);
            let mut k = 0;
            while v != mark {
                v = turn(*p, v);
                k += 1;
            }
            o.perm[i] = j as u8;
            o.delta[i] = k;
        }
        o
    }
    /// In the form of transformation data.
    pub fn data(&self, two: bool) -> TData {
        let mut d = TData::new();
        d.insert("CORNERS".into(), self.orbit(&CORNERS));
        if !two {
            d.insert("EDGES".into(), self.orbit(&EDGES));
            d.insert("CENTERS".into(), self.centers());
        }
        d
    }
}

/// Moves of the cube: prefix, family, and what one turn is.
pub fn moves(two: bool) -> Vec<(MPrefix, String, char, Vec<i8>)> {
    let mut v = vec![];
    let mut add = |p: MPrefix, f: &str, face: char, layers: &[i8]| v.push((p, f.to_owned(), face, layers.to_vec()));
    for (axis, face) in [("x", 'R'), ("y", 'U'), ("z", 'F')] {
        add(MPrefix::None, axis, face, &[-1, 0, 1]);
    }
    for face in ['U', 'L', 'F', 'R', 'B', 'D'] {
        let f = face.to_string();
        add(MPrefix::None, &f, face, &[1]);
        add(MPrefix::None, &(f.clone() + "v"), face, &[-1, 0, 1]);
        if !two {
            add(MPrefix::None, &f.to_lowercase(), face, &[0, 1]);
            add(MPrefix::None, &(f.clone() + "w"), face, &[0, 1]);
            add(MPrefix::Layer(2), &f, face, &[0]);
        }
    }
    if !two {
        for (f, face) in [("M", 'L'), ("E", 'D'), ("S", 'F')] {
            add(MPrefix::None, f, face, &[0]);
        }
    }
    v
}

pub fn move_effect(two: bool, m: &MMove) -> Effect {
    type Table = std::collections::HashMap<(bool, MPrefix, String, i64), Effect>;
    static TABLE: std::sync::OnceLock<Table> = std::sync::OnceLock::new();
    let table = TABLE.get_or_init(|| {
        let mut t = Table::new();
        for two in [false, true] {
            for (p, f, face, layers) in moves(two) {
                for k in 0..4 {
                    t.insert((two, p.clone(), f.clone(), k), Effect::turn(face, &layers, k));
                }
            }
        }
        t
    });
    table[&(two, m.prefix.clone(), m.family.clone(), (m.amount as i64).rem_euclid(4))].clone()
}

/// The effect of an alg, performed on a physical cube.
pub fn effect(two: bool, a: &MAlg) -> Effect {
    let mut e = Effect::none();
    for n in &a.0 {
        let x = match n {
            MNode::Move(m) => move_effect(two, m),
            MNode::Group(i, k) => effect(two, i).power(*k as i64),
            MNode::Comm(x, y) => {
                let (x, y) = (effect(two, x), effect(two, y));
                x.then(&y).then(&x.back()).then(&y.back())
            }
            MNode::Conj(x, y) => {
                let (x, y) = (effect(two, x), effect(two, y));
                x.then(&y).then(&x.back())
            }
            _ => continue,
        };
        e = e.then(&x);
    }
    e
}
