//! C19: the built-in puzzles against physical cubes.
use crate::engine::*;
use crate::gen::alg as ga;
use crate::model::alg::*;
use crate::model::cube::*;
use crate::model::puz::*;
use crate::{ensure, ensure_eq};
use cubing::alg::{Alg, Move};
use cubing::kpuzzle::*;
use cubing::puzzles::{cube2x2x2_kpuzzle, cube3x3x3_kpuzzle};

fn puzzle(two: bool) -> &'static KPuzzle {
    if two {
        cube2x2x2_kpuzzle()
    } else {
        cube3x3x3_kpuzzle()
    }
}
fn name(two: bool) -> &'static str {
    if two {
        "2x2x2"
    } else {
        "3x3x3"
    }
}

fn cube_move(s: &mut Src, two: bool, big: bool) -> MMove {
    let ms = moves(two);
    let (p, f, _, _) = s.pick(&ms).clone();
    let amount = if big { ga::amount(s) } else { ga::small_amount(s) };
    MMove { prefix: p, family: f, amount }
}
fn cube_alg(s: &mut Src, two: bool, depth: usize, len: usize, budget: usize, big: bool) -> MAlg {
    fn strip(a: MAlg) -> MAlg {
        MAlg(
            a.0.into_iter()
                .filter(|n| as_tuple(n).is_none())
                .map(|n| match n {
                    MNode::Group(i, k) => MNode::Group(strip(i), k),
                    MNode::Comm(x, y) => MNode::Comm(strip(x), strip(y)),
                    MNode::Conj(x, y) => MNode::Conj(strip(x), strip(y)),
                    n => n,
                })
                .collect(),
        )
    }
    let mut mov = |s: &mut Src| cube_move(s, two, big);
    let mut am = |s: &mut Src| if big { ga::amount(s) } else { ga::small_amount(s) };
    strip(ga::gen_alg(s, &mut ga::AlgParams { depth, len, comments: true, mov: &mut mov, amount: &mut am, budget, near_tuples: false }))
}

/// A pattern as a physical cube shows it: what `t` makes of the solved cube.
fn solved(two: bool) -> PData {
    let orbit = |n: u8, md: u8| POrbit { pieces: (0..n).collect(), ori: vec![0; n as usize], mods: Some(vec![md; n as usize]) };
    let mut d = PData::new();
    d.insert("CORNERS".into(), orbit(8, 0));
    if !two {
        d.insert("EDGES".into(), orbit(12, 0));
        d.insert("CENTERS".into(), orbit(6, 1));
    }
    d
}
fn shown(two: bool, e: &Effect) -> PData {
    let t = e.data(two);
    let mut d = solved(two);
    for (k, o) in d.iter_mut() {
        let x = &t[k];
        o.pieces = x.perm.clone();
        // The twist of a centre does not show.
        o.ori = if k == "CENTERS" { vec![0; 6] } else { x.delta.clone() };
    }
    d
}

fn check_alg(two: bool, alg: &Alg, e: &Effect, what: &str) -> R {
    let k = puzzle(two);
    let t = k.transformation_from_alg(alg).map_err(|x| format!("{} is refused on the {}: {}", what, name(two), x))?;
    ensure_eq!(tdata_from_lib(&t.to_data()), e.data(two), "transformation of {} on the {}", what, name(two));
    let p = k.default_pattern().apply_alg(alg).map_err(|x| format!("{} is refused by a pattern of the {}: {}", what, name(two), x))?;
    ensure_eq!(pdata_from_lib(&p.to_data()), shown(two, e), "pattern after {} on the {}", what, name(two));
    Ok(())
}

const AMOUNTS: &[i32] = &[
    1, -1, 2, -2, 3, -3, 0, 4, -4, 5, -5, 6, -6, 7, -7, 8, -8, 9, -9, 10, -10, 11, 12, 13, 14, 15, 16, 17, 255, 256, 257, -255, -256, 32767, 32768, 65535, 65537, 1000001, -1000002, 1000003,
    i32::MAX, -i32::MAX, i32::MAX - 1, 1 - i32::MAX,
];
/// Every move with many amounts, through every interface.
fn c19_moves(c: &mut Case) -> R {
    let i = enum_index(c) as usize;
    let n3 = moves(false).len();
    let (two, w) = if i < n3 * AMOUNTS.len() { (false, i) } else { (true, i - n3 * AMOUNTS.len()) };
    let (p, f, face, layers) = moves(two)[w / AMOUNTS.len()].clone();
    let m = MMove { prefix: p, family: f, amount: AMOUNTS[w % AMOUNTS.len()] };
    let text = print_move(&m);
    c.describe(|| format!("{} on the {}", text, name(two)));
    c.key((two, &m));
    c.nontrivial_if(m.amount % 4 != 0);
    let e = Effect::turn(face, &layers, m.amount as i64);
    let k = puzzle(two);
    let lm = move_to_lib(&m);
    let pm: Move = text.parse().map_err(|_| format!("{:?} is no move", text))?;
    for x in [&lm, &pm] {
        let t = k.transformation_from_move(x).map_err(|x| format!("{} is refused on the {}: {}", text, name(two), x))?;
        ensure_eq!(tdata_from_lib(&t.to_data()), e.data(two), "{} on the {}", text, name(two));
        let p = k.default_pattern().apply_move(x).map_err(|x| x.to_string())?;
        ensure_eq!(pdata_from_lib(&p.to_data()), shown(two, &e), "pattern after {} on the {}", text, name(two));
    }
    let alg: Alg = text.parse().map_err(|_| format!("{:?} is no alg", text))?;
    check_alg(two, &alg, &e, &text)
}
fn n_moves() -> u64 {
    ((moves(false).len() + moves(true).len()) * AMOUNTS.len()) as u64
}
/// Every pair of quarter turns, and the default patterns.
fn c19_pairs(c: &mut Case) -> R {
    let i = enum_index(c) as usize;
    let (n3, n2) = (moves(false).len(), moves(true).len());
    let (two, w, n) = if i < n3 * n3 { (false, i, n3) } else { (true, i - n3 * n3, n2) };
    let ms = moves(two);
    let one = |k: usize| MMove { prefix: ms[k].0.clone(), family: ms[k].1.clone(), amount: 1 };
    let a = MAlg(vec![MNode::Move(one(w / n)), MNode::Move(one(w % n))]);
    c.describe(|| format!("{} on the {}", print_alg(&a), name(two)));
    c.key((two, &a));
    c.nontrivial = true;
    check_alg(two, &to_lib(&a), &effect(two, &a), &print_alg(&a))?;
    let k = puzzle(two);
    ensure_eq!(pdata_from_lib(&k.default_pattern().to_data()), solved(two), "default pattern of the {}", name(two));
    ensure_eq!(tdata_from_lib(&k.identity_transformation().to_data()), Effect::none().data(two), "identity of the {}", name(two));
    let mut orbits: Vec<(String, u8, u8)> = k.orbit_info_iter().map(|o| (o.name.0.clone(), o.num_pieces, o.num_orientations)).collect();
    orbits.sort();
    let mut want = vec![("CORNERS".to_owned(), 8, 3)];
    if !two {
        want.insert(0, ("CENTERS".to_owned(), 6, 4));
        want.push(("EDGES".to_owned(), 12, 2));
    }
    ensure_eq!(orbits, want, "orbits of the {}", name(two));
    Ok(())
}

fn c19_algs(c: &mut Case) -> R {
    let two = c.s.chance(1, 4);
    let big = c.s.chance(1, 4);
    let a = cube_alg(&mut c.s, two, 3, 6, 30, big);
    let text = if c.s.bool() { ga::spell_alg(&mut c.s, &normalise(&a, false)) } else { print_alg(&a) };
    let e = effect(two, &a);
    c.describe(|| format!("{:?} on the {}", text, name(two)));
    c.key((two, &a));
    c.nontrivial_if(e != Effect::none());
    c.label(if two { "2x2x2" } else { "3x3x3" });
    check_alg(two, &to_lib(&a), &e, &text)?;
    let alg: Alg = text.parse().map_err(|_| format!("{:?} is no alg", text))?;
    check_alg(two, &alg, &e, &text)?;
    // From a cube that is already turned.
    let b = cube_alg(&mut c.s, two, 2, 6, 15, false);
    let eb = effect(two, &b);
    let k = puzzle(two);
    let p = k.default_pattern().apply_alg(&to_lib(&b)).map_err(|x| x.to_string())?.apply_alg(&alg).map_err(|x| x.to_string())?;
    ensure_eq!(pdata_from_lib(&p.to_data()), shown(two, &eb.then(&e)), "pattern after {:?} and then {:?} on the {}", print_alg(&b), text, name(two));
    Ok(())
}
/// Long plain scrambles, as people use them.
fn c19_scrambles(c: &mut Case) -> R {
    let two = c.s.chance(1, 3);
    let n = c.s.size(25, 250);
    let a = MAlg((0..n).map(|_| MNode::Move(cube_move(&mut c.s, two, false))).collect());
    let e = effect(two, &a);
    c.describe(|| format!("{:?} on the {}", print_alg(&a), name(two)));
    c.key((two, &a));
    c.nontrivial_if(n >= 3);
    check_alg(two, &to_lib(&a), &e, &print_alg(&a))
}
/// Other ways to do the same thing.
fn reword(s: &mut Src, two: bool, a: &MAlg) -> MAlg {
    let mut o = vec![];
    for n in &a.0 {
        match n {
            MNode::Move(m) => {
                let same: Vec<_> = {
                    let e = move_effect(two, m);
                    let mut v = vec![m.clone()];
                    for (p, f, _, _) in moves(two) {
                        for amount in [1, -1, 2, 3, -3, 5] {
                            let x = MMove { prefix: p.clone(), family: f.clone(), amount };
                            if move_effect(two, &x) == e {
                                v.push(x);
                            }
                        }
                    }
                    v
                };
                o.push(MNode::Move(s.pick(&same).clone()));
            }
            MNode::Group(i, k) if (-3..=3).contains(k) && s.bool() => {
                let i = if *k < 0 { MAlg(vec![MNode::Group(reword(s, two, i), -1)]) } else { reword(s, two, i) };
                for _ in 0..k.abs() {
                    o.extend(i.0.clone());
                }
            }
            MNode::Conj(x, y) => {
                o.extend(x.0.clone());
                o.extend(reword(s, two, y).0);
                o.push(MNode::Group(x.clone(), -1));
            }
            n => o.push(n.clone()),
        }
        if s.chance(1, 6) {
            let m = cube_move(s, two, false);
            o.push(MNode::Move(m.clone()));
            o.push(MNode::Move(MMove { amount: -m.amount, ..m }));
        }
    }
    MAlg(o)
}
/// Equality of transformations, and of patterns.
fn c19_equal(c: &mut Case) -> R {
    let two = c.s.chance(1, 4);
    let a = cube_alg(&mut c.s, two, 2, 5, 15, false);
    let mut b = match c.s.usize(3) {
        0 => cube_alg(&mut c.s, two, 1, 2, 4, false),
        _ => reword(&mut c.s, two, &a),
    };
    if c.s.chance(1, 4) {
        // Centre twists, mostly.
        let extra: MAlg = ref_parse_alg(*c.s.pick(&["(R U R' U)5", "(R U' R' U')105", "U4", "R", "(M' U)4", "(R F' U)1260", "(R U R' U)6"])).unwrap();
        if !two || !print_alg(&extra).contains('M') {
            b.0.extend(extra.0);
        }
    }
    let (ea, eb) = (effect(two, &a), effect(two, &b));
    let (da, db) = (ea.data(two), eb.data(two));
    c.describe(|| format!("{:?} and {:?} on the {}", print_alg(&a), print_alg(&b), name(two)));
    c.key((two, &a, &b));
    c.nontrivial_if(a != b);
    c.label(if da == db { "same effect" } else { "different effects" });
    let k = puzzle(two);
    let ta = k.transformation_from_alg(&to_lib(&a)).map_err(|x| x.to_string())?;
    let tb = k.transformation_from_alg(&to_lib(&b)).map_err(|x| x.to_string())?;
    if !two {
        ensure_eq!(da == db, ea.visible() == eb.visible(), "harness: data and effect");
    }
    ensure!((ta == tb) == (da == db), "{:?} and {:?} give {} transformations on the {}", print_alg(&a), print_alg(&b), if ta == tb { "equal" } else { "different" }, name(two));
    let (pa, pb) = (k.default_pattern().apply_transformation(&ta), k.default_pattern().apply_transformation(&tb));
    let same = shown(two, &ea) == shown(two, &eb);
    c.label_if(same && da != db, "differ in centre twists only");
    ensure!((pa == pb) == same, "{:?} and {:?} give {} patterns on the {}", print_alg(&a), print_alg(&b), if pa == pb { "equal" } else { "different" }, name(two));
    Ok(())
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "The built-in puzzles are compared with physical cubes modelled as pieces at coordinates that turn in space, named in the standard order (edges UF UR UB UL DF DR DB DL FR FL BR BL, corners UFR URB UBL ULF DRF DFL DLB DBR, centres U L F R B D). All moves in all spellings (faces, rotations, slices, Xw, lower case, 2X, Xv) with 44 amounts each and all pairs of quarter turns are enumerated; random nested algs (text in any spelling, large amounts), long scrambles, and pairs of algs (rewritten to have the same effect, or the same up to centre twists) are random. Transformations and patterns must be exactly what the cube shows, and equal exactly when it does. Non-trivial: the alg changes something (pairs: the two algs differ); distinct by puzzle and alg.",
        assumptions: &["The reference mark of a centre points up on the side faces, to B on U and to F on D; corner orientation counts clockwise; edge orientation 0 means the first letter's facelet is on the first letter's side."],
        subs: vec![
            Sub::enumerate("moves", n_moves(), n_moves(), c19_moves),
            Sub::enumerate("pairs", (moves(false).len().pow(2) + moves(true).len().pow(2)) as u64, (moves(false).len().pow(2) + moves(true).len().pow(2)) as u64, c19_pairs),
            Sub::random("algs", 40_000, 800_000, c19_algs),
            Sub::random("scrambles", 10_000, 200_000, c19_scrambles),
            Sub::random("equality", 40_000, 800_000, c19_equal),
        ],
    }
}
