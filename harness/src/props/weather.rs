//! What a thread may have been through before a case: hundreds or thousands of operations, refused and
//! accepted, whose traces (counters, caches, flags in the code under test) must not show afterwards.
use super::defs::{corrupt_pdata, corrupt_tdata};
use super::puz::lib_puzzle;
use crate::engine::*;
use crate::gen::alg as ga;
use crate::gen::puz as gp;
use crate::gen::puz::PuzzleParams;
use crate::model::alg::*;
use crate::model::puz::*;
use cubing::alg::{Alg, Move, QuantumMove};
use cubing::kpuzzle::*;

/// Goes through a number of operations, most of them refused. What they answer is judged elsewhere.
pub fn weather(s: &mut Src) -> usize {
    let n = 1usize << s.usize(12);
    let n = n + s.usize(n);
    let kinds: Vec<usize> = if s.bool() { vec![s.usize(9)] } else { (0..9).collect() };
    let mut p = gp::puzzle(s, &PuzzleParams { max_pieces: 6, max_moves: 4, conventional: true, derived: true, shadow: false });
    p.name = "weather".into();
    let Ok(k) = lib_puzzle(&p) else { return 0 };
    let mut pool: Vec<Box<dyn Fn()>> = vec![];
    for i in 0..8 {
        let good = i == 7 && s.bool();
        match *s.pick(&kinds) {
            0 | 1 => {
                // Applied, inverted and printed, inside every kind of node.
                let mut a = gp::puzzle_alg(s, &p, 3, 2, 12, true);
                if !good {
                    gp::spoil(s, &p, &mut a);
                }
                for _ in 0..s.usize(3) {
                    let other = MAlg(vec![MNode::Move(gp::known_move(s, &p, false))]);
                    let n = match s.usize(5) {
                        0 => MNode::Group(a, 2),
                        1 => MNode::Comm(a, other),
                        2 => MNode::Comm(other, a),
                        3 => MNode::Conj(a, other),
                        _ => MNode::Conj(other, a),
                    };
                    a = MAlg(vec![n]);
                }
                let a = to_lib(&a);
                let k = k.clone();
                let x = k.default_pattern();
                let how = s.usize(4);
                pool.push(Box::new(move || match how {
                    0 => {
                        let _ = x.apply_alg(&a);
                    }
                    1 => {
                        let _ = k.transformation_from_alg(&a.invert());
                    }
                    _ => {
                        let _ = k.transformation_from_alg(&a);
                    }
                }));
            }
            2 => {
                // Left open, closed twice, cut off.
                let a = ga::text_alg(s);
                let t = ga::spell_alg(s, &a);
                let t = match s.usize(5) {
                    0 => format!("({} ", t),
                    1 => format!("[{}\n, (U ", t),
                    2 => format!("{}\n)", t),
                    3 => t,
                    _ => ga::mutate(s, &t),
                };
                if t.len() < 200 {
                    pool.push(Box::new(move || {
                        let _ = t.parse::<Alg>();
                        let _ = serde_json::from_str::<Alg>(&format!("{:?}", t));
                    }));
                }
            }
            3 => {
                let m = ga::any_move(s);
                let t = ga::spell_move(s, &m) + if good { "" } else { *s.pick(&["!", "''", "2147483648", "_", " ", "-U", "\u{e9}"]) };
                pool.push(Box::new(move || {
                    let _ = t.parse::<Move>();
                    let _ = t.parse::<QuantumMove>();
                }));
            }
            4 => {
                let mut q = p.clone();
                if !good {
                    let d = q.derived.get_or_insert_with(Vec::new);
                    d.push((mv("zz", 1), MAlg(vec![MNode::Group(MAlg(vec![MNode::Move(mv("yy", 1))]), 2)])));
                    d.push((mv("yy", 1), if s.bool() { MAlg(vec![MNode::Move(mv("zz", -1))]) } else { MAlg(vec![MNode::Move(mv("nope", 1))]) }));
                }
                pool.push(Box::new(move || {
                    let _ = KPuzzle::try_new(def_to_lib(&q));
                }));
            }
            5 => {
                let mut d = pattern_data(&p.orbits, &gp::pattern(s, &p.orbits));
                if !good {
                    corrupt_pdata(s, &p.orbits, &mut d);
                }
                let d = pdata_to_lib(&d);
                let k = k.clone();
                pool.push(Box::new(move || {
                    let _ = KPattern::try_from_data(&k, &d);
                }));
            }
            6 => {
                let mut d = trans_data(&p.orbits, &gp::trans(s, &p.orbits));
                if !good {
                    corrupt_tdata(s, &p.orbits, &mut d);
                }
                let d = tdata_to_lib(&d);
                let k = k.clone();
                pool.push(Box::new(move || {
                    let _ = KTransformation::try_from_data(&k, &d);
                }));
            }
            7 => {
                let m = move_to_lib(&ga::any_move(s));
                let k = k.clone();
                pool.push(Box::new(move || {
                    let _ = k.transformation_from_move(&m);
                }));
            }
            _ => {
                // Values come and go.
                let t = gp::trans(s, &p.orbits);
                let Ok(t) = trans_to_lib(&k, &p.orbits, &t) else { continue };
                let x = k.default_pattern();
                pool.push(Box::new(move || {
                    let y = x.clone().apply_transformation(&t);
                    let u = t.invert();
                    let _ = y == x && u == t;
                }));
            }
        }
    }
    if pool.is_empty() {
        return 0;
    }
    for i in 0..n {
        let _ = catches(|| pool[i % pool.len()]());
    }
    n
}
