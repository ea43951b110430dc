//! C08–C15, C24: puzzles, transformations, patterns.
use crate::engine::*;
use crate::gen::alg as ga;
use crate::gen::puz as gp;
use crate::gen::puz::PuzzleParams;
use crate::model::alg::*;
use crate::model::puz::*;
use crate::{ensure, ensure_eq};
use cubing::alg::{Alg, AlgBuilder};
use cubing::kpuzzle::*;
use cubing::puzzles::{cube2x2x2_kpuzzle, cube3x3x3_kpuzzle};
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

pub fn built_in(two: bool) -> (MPuzzle, KPuzzle) {
    static A: OnceLock<MPuzzle> = OnceLock::new();
    static B: OnceLock<MPuzzle> = OnceLock::new();
    let (cell, k) = if two { (&A, cube2x2x2_kpuzzle()) } else { (&B, cube3x3x3_kpuzzle()) };
    (cell.get_or_init(|| def_from_lib(k.definition())).clone(), k.clone())
}

pub fn lib_puzzle(p: &MPuzzle) -> Result<KPuzzle, String> {
    KPuzzle::try_new(def_to_lib(p)).map_err(|e| format!("the well-founded definition {} was refused: {}", brief(p), e))
}
pub fn brief(p: &MPuzzle) -> String {
    let orbits: Vec<String> = p.orbits.iter().map(|o| format!("{:?} {}x{}", o.name, o.n, o.m)).collect();
    let moves: Vec<String> = p.moves.iter().map(|(m, _)| print_move(m)).collect();
    let derived: Vec<String> = p.derived.iter().flatten().map(|(m, a)| format!("{} = {:?}", print_move(m), print_alg(a))).collect();
    format!("orbits [{}] moves [{}] derived [{}]", orbits.join(", "), moves.join(" "), derived.join(", "))
}

/// A generated or, sometimes, a built-in puzzle.
fn any_puzzle(c: &mut Case, pp: &PuzzleParams) -> Result<(MPuzzle, KPuzzle), String> {
    if pp.conventional && c.s.chance(1, 6) {
        c.label("built-in puzzle");
        return Ok(built_in(c.s.bool()));
    }
    let p = gp::puzzle(&mut c.s, pp);
    let k = lib_puzzle(&p)?;
    c.label_if(p.derived.as_ref().is_some_and(|d| !d.is_empty()), "derived moves");
    c.label_if(p.orbits.iter().any(|o| o.n >= 128), "orbit of 128+ pieces");
    c.label_if(p.orbits.iter().any(|o| o.m >= 64), "64+ orientations");
    c.label_if(p.orbits.iter().any(|o| o.n == 0), "empty orbit");
    Ok((p, k))
}
fn pp(max_pieces: u8, max_moves: usize, conventional: bool, derived: bool) -> PuzzleParams {
    PuzzleParams { max_pieces, max_moves, conventional, derived, shadow: !conventional }
}
fn is_invalid_move(e: &InvalidAlgError) -> bool {
    matches!(e, InvalidAlgError::InvalidMove(_))
}

// ------------------------------------------------------------------------------------ C08

fn near_move(s: &mut Src, p: &MPuzzle) -> MMove {
    let mut m = gp::known_move(s, p, true);
    match s.weighted(&[6, 2, 2, 2, 1, 1, 1]) {
        0 => {}
        1 => m.amount = ga::amount(s),
        2 => m.prefix = ga::prefix(s),
        3 => m.amount = m.amount.wrapping_neg().max(-i32::MAX),
        4 => {
            m.family = m.family.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        }
        5 => m.family += "_",
        _ => m = gp::puzzle_move(s),
    }
    m
}
fn c08_case(c: &mut Case) -> R {
    let conv = c.s.chance(1, 4);
    let (p, k) = any_puzzle(c, &pp(8, 12, conv, true))?;
    c08_on(c, p, k)
}
fn c08_wide(c: &mut Case) -> R {
    let mut p = gp::puzzle(&mut c.s, &pp(8, 6, false, true));
    gp::widen(&mut c.s, &mut p);
    let k = lib_puzzle(&p)?;
    c08_on(c, p, k)
}
fn c08_on(c: &mut Case, p: MPuzzle, k: KPuzzle) -> R {
    c.label_if(p.shadowed(), "shadowed derived move");
    let pat = gp::pattern(&mut c.s, &p.orbits);
    let lp = pattern_to_lib(&k, &p.orbits, &pat)?;
    let n = 1 + c.s.size(4, 12);
    let mut evals = 0;
    for _ in 0..n {
        let m = near_move(&mut c.s, &p);
        let want = p.eval_move(&m);
        let res = p.resolve(&m);
        match &res {
            None => c.label("refused"),
            Some(Resolved::Direct(k, _, r)) => c.label(if k.amount != 1 { if *r == 1 { "direct, exact amount" } else { "direct, opposite amount" } } else { "direct, once-turned" }),
            Some(Resolved::Derived(k, _, r)) => c.label(if k.amount != 1 { if *r == 1 { "derived, exact amount" } else { "derived, opposite amount" } } else { "derived, once-turned" }),
        }
        c.nontrivial_if(res.is_some() && m.amount != 1);
        c.key((print_move(&m), &want.is_ok()));
        c.describe(|| format!("move {} on {}", print_move(&m), brief(&p)));
        let lm = move_to_lib(&m);
        let la = Alg { nodes: vec![node_to_lib(&MNode::Move(m.clone()))] };
        let t1 = k.transformation_from_move(&lm);
        let t2 = k.transformation_from_alg(&la);
        let p1 = lp.apply_move(&lm);
        let p2 = lp.apply_alg(&la);
        match want {
            Ok(t) => {
                for (how, got) in [("as a move", &t1), ("as an alg", &t2)] {
                    match got {
                        Ok(g) => ensure_eq!(trans_from_lib(g), t, "{} resolved {} on {}", print_move(&m), how, brief(&p)),
                        Err(e) => return Err(format!("{} {} refused on {}: {}", print_move(&m), how, brief(&p), e)),
                    }
                }
                let np = apply(&p.orbits, &pat, &t);
                for (how, got) in [("as a move", &p1), ("as an alg", &p2)] {
                    match got {
                        Ok(g) => ensure_eq!(pattern_from_lib(g), np, "{} applied {} to a pattern on {}", print_move(&m), how, brief(&p)),
                        Err(e) => return Err(format!("{} {} refused on a pattern of {}: {}", print_move(&m), how, brief(&p), e)),
                    }
                }
            }
            Err(_) => {
                for (how, e) in [("as a move", t1.err()), ("as an alg", t2.err()), ("as a move on a pattern", p1.err()), ("as an alg on a pattern", p2.err())] {
                    match e {
                        Some(e) => ensure!(is_invalid_move(&e), "{} {} on {} gives the wrong kind of error: {:?}", print_move(&m), how, brief(&p), e),
                        None => return Err(format!("{} {} is accepted by {}, which does not define it", print_move(&m), how, brief(&p))),
                    }
                }
            }
        }
        evals += 1;
    }
    c.evals = evals;
    Ok(())
}
pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "Random puzzles whose move definitions overlap (same family with several amounts and prefixes, direct and derived, shadowed), puzzles of hundreds of moves, and the built-in ones; moves near the defined ones are looked up as move and as one-move alg, on transformations and patterns, and compared with an independent resolver and cycle-wise powers. Non-trivial: some looked-up move exists with an amount other than 1; distinct by moves and puzzle.",
        assumptions: &["Amounts are within ±(2^31-1).", "Which of several applicable definitions wins is the order stated in the property."],
        subs: vec![Sub::random("lookups", 200_000, 4_000_000, c08_case), Sub::random("many moves", 1_500, 30_000, c08_wide)],
    }
}

// ------------------------------------------------------------------------------------ C09

fn bare(os: Vec<MOrbit>, s: &mut Src) -> MPuzzle {
    let default = pattern_data(&os, &gp::pattern(s, &os));
    MPuzzle { name: "p".into(), orbits: os, default, moves: vec![], derived: None }
}
fn c09_case(c: &mut Case) -> R {
    let max = *c.s.pick(&[6u8, 24, 255]);
    let os = gp::orbits(&mut c.s, max);
    c09_on(c, os)
}
fn c09_many(c: &mut Case) -> R {
    let os = gp::many_orbits(&mut c.s);
    c09_on(c, os)
}
fn c09_on(c: &mut Case, os: Vec<MOrbit>) -> R {
    let p = bare(os, &mut c.s);
    let o = &p.orbits;
    let k = lib_puzzle(&p)?;
    let ts: Vec<MT> = (0..3).map(|_| gp::trans(&mut c.s, o)).collect();
    c.describe(|| format!("orbits {:?}\n a = {:?}\n b = {:?}", o, ts[0], ts[1]));
    c.key((o, &ts));
    c.nontrivial_if(ts[0] != identity(o) && ts[1] != identity(o));
    c.label_if(o.iter().any(|x| x.n >= 128), "orbit of 128+ pieces");
    c.label_if(o.iter().any(|x| x.m >= 64), "64+ orientations");
    c.label_if(o.len() >= 4, "4+ orbits");
    let mut ls = vec![];
    for t in &ts {
        ls.push(trans_to_lib(&k, o, t)?);
    }
    let id = k.identity_transformation();
    ensure_eq!(trans_from_lib(&id), identity(o), "the identity");
    let mut prods = vec![];
    for (i, j) in [(0, 1), (1, 2), (1, 0), (0, 0)] {
        let got = ls[i].apply_transformation(&ls[j]);
        ensure_eq!(trans_from_lib(&got), compose(o, &ts[i], &ts[j]), "composition of {:?} and {:?}", ts[i], ts[j]);
        // Into a target that holds something else.
        let mut into = ls[2].clone();
        ls[i].apply_transformation_into(&ls[j], &mut into);
        ensure_eq!(trans_from_lib(&into), compose(o, &ts[i], &ts[j]), "composition into a target of {:?} and {:?}", ts[i], ts[j]);
        ensure!(into == got, "composition into a target differs from composition");
        prods.push(got);
    }
    // Associativity, neutrality, inverses, in the library's own equality.
    ensure!(prods[0].apply_transformation(&ls[2]) == ls[0].apply_transformation(&prods[1]), "(ab)c differs from a(bc)");
    for (t, l) in ts.iter().zip(&ls) {
        ensure!(id.apply_transformation(l) == *l && l.apply_transformation(&id) == *l, "the identity is not neutral for {:?}", t);
        let inv = l.invert();
        ensure_eq!(trans_from_lib(&inv), inverse(o, t), "inverse of {:?}", t);
        ensure!(l.apply_transformation(&inv) == id, "t t' is not the identity for {:?}", t);
        ensure!(inv.apply_transformation(l) == id, "t' t is not the identity for {:?}", t);
        ensure!(inv.invert() == *l, "inverting {:?} twice", t);
    }
    ensure!(
        prods[0].invert() == ls[1].invert().apply_transformation(&ls[0].invert()),
        "(ab)' differs from b'a' for {:?} and {:?}",
        ts[0],
        ts[1]
    );
    for (t, l) in ts.iter().zip(&ls) {
        ensure_eq!(trans_from_lib(l), *t, "an operand after the operations");
    }
    ensure_eq!(trans_from_lib(&id), identity(o), "the identity after the operations");
    Ok(())
}
/// All transformations of tiny orbits.
fn c09_small(c: &mut Case) -> R {
    let shapes: [(u8, u8); 6] = [(1, 1), (1, 5), (2, 3), (3, 2), (3, 1), (2, 6)];
    let i = enum_index(c) as usize;
    let (n, m) = shapes[i % shapes.len()];
    let other = shapes[i / shapes.len() % shapes.len()];
    let o = vec![MOrbit { name: "A".into(), n, m }, MOrbit { name: "B".into(), n: other.0, m: other.1 }];
    let p = bare(o, &mut c.s);
    let o = &p.orbits;
    let k = lib_puzzle(&p)?;
    let mut perms: Vec<Vec<u8>> = vec![vec![]];
    for x in 0..n {
        perms = perms.iter().flat_map(|v| (0..=v.len()).map(|at| { let mut w = v.clone(); w.insert(at, x); w }).collect::<Vec<_>>()).collect();
    }
    let mut all = vec![];
    for perm in &perms {
        for d in 0..(m as u32).pow(n as u32) {
            let delta: Vec<u8> = (0..n as u32).map(|q| (d / (m as u32).pow(q) % m as u32) as u8).collect();
            let mut t = identity(o);
            t.0[0] = TOrbit { perm: perm.clone(), delta };
            all.push(t);
        }
    }
    let mut libs = vec![];
    for t in &all {
        libs.push(trans_to_lib(&k, o, t)?);
    }
    for (a, la) in all.iter().zip(&libs) {
        ensure_eq!(trans_from_lib(&la.invert()), inverse(o, a), "inverse of {:?}", a);
        for (b, lb) in all.iter().zip(&libs) {
            ensure_eq!(trans_from_lib(&la.apply_transformation(lb)), compose(o, a, b), "composition of {:?} and {:?}", a, b);
        }
    }
    c.describe(|| format!("all {}² pairs of transformations of {} pieces with {} orientations beside an orbit {:?}", all.len(), n, m, other));
    c.key(i);
    c.nontrivial_if(all.len() > 1);
    c.evals = (all.len() * all.len()) as u64;
    Ok(())
}
pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "Three random transformations on random orbit shapes (up to 255 pieces, 12 orbits, every supported orientation count) are composed and inverted, into new and existing targets, compared with an independent model and with the group laws in the library's own equality; all transformations of tiny orbits are enumerated. Non-trivial: the first two are not the identity; distinct by orbits and transformations.",
        assumptions: &["Operands belong to one puzzle."],
        subs: vec![Sub::enumerate("all tiny transformations", 36, 36, c09_small), Sub::random("random transformations", 300_000, 6_000_000, c09_case), Sub::random("many orbits", 64, 1_500, c09_many)],
    }
}

// ------------------------------------------------------------------------------------ C10

fn order(o: &[MOrbit], t: &MT) -> Option<i64> {
    let mut ord: i64 = 1;
    let id = identity(o);
    // By cycles, through the model's power: find the smallest n with t^n = 1 per orbit.
    for (k, x) in t.0.iter().enumerate() {
        let n = x.perm.len();
        let m = o[k].m as i64;
        let mut seen = vec![false; n];
        for s in 0..n {
            if seen[s] {
                continue;
            }
            let (mut len, mut sum, mut i) = (0i64, 0i64, s);
            while !seen[i] {
                seen[i] = true;
                len += 1;
                sum += x.delta[i] as i64;
                i = x.perm[i] as usize;
            }
            let g = gcd(sum % m, m);
            let cyc = len * (m / g);
            ord = ord.checked_mul(cyc / gcd(ord, cyc))?;
            if ord > i32::MAX as i64 {
                return None;
            }
        }
    }
    debug_assert!(power(o, t, ord) == id);
    Some(ord)
}
fn gcd(a: i64, b: i64) -> i64 {
    if a == 0 {
        b
    } else {
        gcd(b % a, a)
    }
}
fn group(a: &MAlg, n: i32) -> Alg {
    to_lib(&MAlg(vec![MNode::Group(a.clone(), n)]))
}
fn wide_amount(s: &mut Src) -> i32 {
    if s.bool() {
        ga::amount(s)
    } else {
        ga::sized_amount(s)
    }
}
fn c10_case(c: &mut Case) -> R {
    let (p, k) = any_puzzle(c, &pp(24, 8, true, true))?;
    let o = &p.orbits;
    let mut a = if c.s.bool() { MAlg(vec![MNode::Move(gp::known_move(&mut c.s, &p, false))]) } else { gp::puzzle_alg(&mut c.s, &p, 2, 4, 12, true) };
    if p.cost(&a) > 400 {
        a = MAlg(vec![]);
    }
    let base = p.eval(&a).map_err(|m| format!("harness: unknown {:?}", m))?;
    let n = wide_amount(&mut c.s);
    let m = wide_amount(&mut c.s);
    c.describe(|| format!("({}){} and ({}){}", print_alg(&a), print_amount(n), print_alg(&a), print_amount(m)));
    c.key((&a, n, m, brief(&p)));
    c.nontrivial_if(base != identity(o) && n != 1);
    c.label_if(n.unsigned_abs() > 1000, "amount over 1000");
    c.label_if(n < 0, "negative");
    let eval = |x: &Alg| k.transformation_from_alg(x).map_err(|e| format!("{} refused: {}", x, e));
    let tn = eval(&group(&a, n))?;
    let tm = eval(&group(&a, m))?;
    ensure_eq!(trans_from_lib(&tn), power(o, &base, n as i64), "({}){}", print_alg(&a), print_amount(n));
    ensure_eq!(trans_from_lib(&tm), power(o, &base, m as i64), "({}){}", print_alg(&a), print_amount(m));
    if let Some(sum) = n.checked_add(m) {
        if sum != i32::MIN {
            ensure!(tn.apply_transformation(&tm) == eval(&group(&a, sum))?, "({0}){1} ({0}){2} differs from their sum", print_alg(&a), n, m);
        }
    }
    let nested = to_lib(&MAlg(vec![MNode::Group(MAlg(vec![MNode::Group(a.clone(), n)]), m)]));
    let tnm = eval(&nested)?;
    ensure_eq!(trans_from_lib(&tnm), power(o, &power(o, &base, n as i64), m as i64), "(({}){}){}", print_alg(&a), n, m);
    if let Some(prod) = n.checked_mul(m) {
        if prod != i32::MIN {
            ensure!(tnm == eval(&group(&a, prod))?, "repeating a repetition: ({}) {} {}", print_alg(&a), n, m);
        }
    }
    if let Some(ord) = order(o, &base) {
        let shifted = n as i64 + ord * if n > 0 { -1 } else { 1 };
        if shifted.abs() <= i32::MAX as i64 {
            c.label("shifted by the order");
            ensure!(tn == eval(&group(&a, shifted as i32))?, "({}): {} and {} differ by the order {}", print_alg(&a), n, shifted, ord);
        }
    }
    ensure!(eval(&group(&a, 0))? == k.identity_transformation(), "({})0 is not the identity", print_alg(&a));
    // Moves by amount.
    let mv = gp::known_move(&mut c.s, &p, false);
    if let Some(Resolved::Direct(key, ..) | Resolved::Derived(key, ..)) = p.resolve(&MMove { amount: 1, ..mv.clone() }).filter(|r| matches!(r, Resolved::Direct(k, ..) | Resolved::Derived(k, ..) if k.amount == 1)) {
        let once = p.eval_move(key).map_err(|_| "harness".to_owned())?;
        let q = MMove { amount: n, ..mv.clone() };
        let got = k.transformation_from_move(&move_to_lib(&q)).map_err(|e| format!("{} refused: {}", print_move(&q), e))?;
        ensure_eq!(trans_from_lib(&got), power(o, &once, n as i64), "{} on {}", print_move(&q), brief(&p));
        ensure!(got == eval(&group(&MAlg(vec![MNode::Move(MMove { amount: 1, ..mv.clone() })]), n))?, "{} differs from the group", print_move(&q));
    }
    Ok(())
}
/// Moves derived from others with amounts of any size, with such amounts themselves.
fn c10_derived(c: &mut Case) -> R {
    let mut p = gp::puzzle(&mut c.s, &pp(12, 4, false, false));
    let mut names: Vec<MMove> = p.moves.iter().map(|(m, _)| m.clone()).collect();
    let mut derived = vec![];
    for i in 0..1 + c.s.usize(3) {
        let s = &mut c.s;
        let part = |s: &mut Src, names: &[MMove]| {
            let k = s.pick(names).clone();
            MNode::Move(if k.amount == 1 { MMove { amount: wide_amount(s), ..k } } else { k })
        };
        let n = wide_amount(s);
        let (x, y) = (MAlg(vec![part(s, &names)]), MAlg(vec![part(s, &names)]));
        let a = match s.usize(6) {
            0 => x,
            1 | 2 => MAlg(vec![MNode::Group(x, n)]),
            3 => MAlg(vec![MNode::Conj(x, MAlg(vec![MNode::Group(y, n)]))]),
            4 => MAlg(vec![MNode::Group(MAlg(vec![MNode::Conj(x, y)]), n)]),
            _ => MAlg(vec![MNode::Group(MAlg([x.0, y.0].concat()), n)]),
        };
        let key = mv(["BIG", "BIGGER", "BIGGEST"][i], 1);
        derived.push((key.clone(), a));
        names.push(key);
    }
    p.derived = Some(derived);
    let k = lib_puzzle(&p)?;
    let n = wide_amount(&mut c.s);
    let q = MMove { amount: n, ..names.last().unwrap().clone() };
    c.describe(|| format!("{} on {}", print_move(&q), brief(&p)));
    c.key((&q, brief(&p)));
    let once = p.eval_move(names.last().unwrap()).map_err(|m| format!("harness: unknown {:?}", m))?;
    c.nontrivial_if(once != identity(&p.orbits) && n != 1);
    c.label_if(n.unsigned_abs() > 1000, "amount over 1000");
    let want = power(&p.orbits, &once, n as i64);
    let err = |e: cubing::kpuzzle::InvalidAlgError| format!("{} refused: {}", print_move(&q), e);
    ensure_eq!(trans_from_lib(&k.transformation_from_move(&move_to_lib(&q)).map_err(err)?), want, "{} on {}", print_move(&q), brief(&p));
    let g = group(&MAlg(vec![MNode::Move(MMove { amount: 1, ..q.clone() })]), n);
    ensure_eq!(trans_from_lib(&k.transformation_from_alg(&g).map_err(err)?), want, "{} on {}", g, brief(&p));
    Ok(())
}
/// Every built-in move with every amount in a range, against repeated application.
fn c10_range(c: &mut Case) -> R {
    let i = enum_index(c) as usize;
    let (p, k) = built_in(i % 2 == 1);
    let mut keys: Vec<MMove> = p.moves.iter().map(|x| x.0.clone()).collect();
    keys.extend(p.derived.iter().flatten().map(|x| x.0.clone()));
    let key = &keys[i / 2 % keys.len()];
    let once = k.transformation_from_move(&move_to_lib(key)).map_err(|e| e.to_string())?;
    let back = once.invert();
    let mut fwd = k.identity_transformation();
    let mut bwd = k.identity_transformation();
    for n in 0..=130i32 {
        for (amount, want) in [(n, &fwd), (-n, &bwd)] {
            let m = MMove { amount: amount * key.amount, ..key.clone() };
            let got = k.transformation_from_move(&move_to_lib(&m)).map_err(|e| e.to_string())?;
            ensure!(got == *want, "{} is not {} applications of {}", print_move(&m), amount, print_move(key));
            let g = k.transformation_from_alg(&group(&MAlg(vec![MNode::Move(key.clone())]), amount)).map_err(|e| e.to_string())?;
            ensure!(g == *want, "({}){} is not {} applications", print_move(key), amount, amount);
        }
        fwd = fwd.apply_transformation(&once);
        bwd = bwd.apply_transformation(&back);
    }
    c.describe(|| format!("{} with amounts -130..130 on the {}", print_move(key), p.name));
    c.key((key, i % 2));
    c.nontrivial = true;
    c.evals = 4 * 131;
    Ok(())
}
pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "Random moves and groups with amounts drawn from the whole range (small, near powers of two, near literals of the code, uniform) on random and built-in puzzles are compared with cycle-by-cycle powers of an independent model and with the additive, multiplicative and periodicity laws; every built-in move is repeated -130..130 times; moves derived in up to three steps with such amounts are repeated with such amounts. Non-trivial: the content is not the identity and the amount not 1; distinct by content, amounts and puzzle.",
        assumptions: &["Amounts are within ±(2^31-1), what text can express."],
        subs: vec![Sub::enumerate("built-in moves", 2 * 64, 2 * 64, c10_range), Sub::random("random", 100_000, 2_000_000, c10_case), Sub::random("derived moves", 50_000, 1_000_000, c10_derived)],
    }
}

// ------------------------------------------------------------------------------------ C11

/// The moves of an alg in order, after expansion. None: too many.
pub fn expand(a: &MAlg, limit: usize) -> Option<Vec<MMove>> {
    let mut out: Vec<MMove> = vec![];
    for n in &a.0 {
        match n {
            MNode::Move(m) => out.push(m.clone()),
            MNode::Group(i, k) => {
                let i = if *k < 0 { invert(i) } else { i.clone() };
                let i = expand(&i, limit)?;
                if i.len().saturating_mul(k.unsigned_abs() as usize) > limit {
                    return None;
                }
                for _ in 0..if i.is_empty() { 0 } else { k.unsigned_abs() } {
                    out.extend(i.iter().cloned());
                }
            }
            MNode::Comm(x, y) => {
                for z in [x.clone(), y.clone(), invert(x), invert(y)] {
                    out.extend(expand(&z, limit)?);
                }
            }
            MNode::Conj(x, y) => {
                for z in [x.clone(), y.clone(), invert(x)] {
                    out.extend(expand(&z, limit)?);
                }
            }
            _ => {}
        }
        if out.len() > limit {
            return None;
        }
    }
    Some(out)
}
fn accepted_alg(c: &mut Case, p: &MPuzzle) -> MAlg {
    if c.s.chance(1, 250) {
        let bytes: usize = p.orbits.iter().map(|o| o.n as usize + 1).sum();
        if let Some(a) = long_accepted_alg(c, p).filter(|a| p.cost(a) * bytes as u64 <= 3_000_000) {
            c.label("hundreds of nodes or more");
            return a;
        }
    }
    let (depth, len, budget) = match c.s.weighted(&[6, 3, 1]) {
        0 => (3, 4, 24),
        1 => (5, 3, 40),
        _ => (1, 30, 120),
    };
    let small = !c.s.chance(1, 5);
    let a = gp::puzzle_alg(&mut c.s, p, depth, len, budget, small);
    if p.cost(&a) > 3000 {
        MAlg(vec![MNode::Move(gp::known_move(&mut c.s, p, false))])
    } else {
        a
    }
}
/// None: not with this puzzle.
fn long_accepted_alg(c: &mut Case, p: &MPuzzle) -> Option<MAlg> {
    let small = gp::puzzle_alg(&mut c.s, p, 1, 3, 6, true);
    let elements: Vec<MNode> = small.0.into_iter().filter(|n| !matches!(n, MNode::Comment(_))).collect();
    if elements.is_empty() {
        return None;
    }
    let n = ga::long_count(&mut c.s);
    let a = MAlg(ga::long_order(&mut c.s, elements.len(), n).into_iter().map(|i| elements[i].clone()).collect());
    Some(match c.s.weighted(&[5, 1, 1]) {
        0 => a,
        1 => MAlg(vec![MNode::Group(a, ga::small_amount(&mut c.s))]),
        _ => MAlg(vec![MNode::Conj(MAlg(elements), a)]),
    })
}
fn c11_case(c: &mut Case) -> R {
    let (p, k) = any_puzzle(c, &pp(16, 10, true, true))?;
    let o = &p.orbits;
    let a = accepted_alg(c, &p);
    let b = accepted_alg(c, &p);
    c.describe(|| format!("alg {:?} on {}", print_alg(&a), brief(&p)));
    c.key((&a, &b, brief(&p)));
    c.nontrivial_if(depth(&a) >= 1 && count_nodes(&a) >= 3);
    c.label_if(depth(&a) >= 3, "nesting 3+");
    c.label_if(a.0.iter().any(|n| as_tuple(n).is_some()), "tuple");
    let pat = gp::pattern(&mut c.s, o);
    let lp = pattern_to_lib(&k, o, &pat)?;
    let la = to_lib(&a);
    let ta = match k.transformation_from_alg(&la) {
        Ok(t) => t,
        Err(e) => return Err(format!("{:?} refused on {}: {}", print_alg(&a), brief(&p), e)),
    };
    let want = p.eval(&a).map_err(|m| format!("harness: unknown {:?}", m))?;
    ensure_eq!(trans_from_lib(&ta), want, "effect of {:?} on {}", print_alg(&a), brief(&p));
    if let Some(moves) = expand(&a, 1200) {
        c.label("expanded");
        let mut q = lp.clone();
        let mut t = k.identity_transformation();
        for m in &moves {
            let lm = move_to_lib(m);
            q = q.apply_move(&lm).map_err(|e| format!("{} refused: {}", print_move(m), e))?;
            t = t.apply_transformation(&k.transformation_from_move(&lm).map_err(|e| e.to_string())?);
        }
        ensure!(t == ta, "the effect of {:?} is not that of its {} moves on {}", print_alg(&a), moves.len(), brief(&p));
        let got = lp.apply_alg(&la).map_err(|e| e.to_string())?;
        ensure_eq!(pattern_from_lib(&got), pattern_from_lib(&q), "pattern after {:?}, and after its moves one by one, on {}", print_alg(&a), brief(&p));
        ensure!(got == q, "patterns differ");
    }
    let got = lp.apply_alg(&la).map_err(|e| e.to_string())?;
    ensure_eq!(pattern_from_lib(&got), apply(o, &pat, &want), "pattern after {:?} on {}", print_alg(&a), brief(&p));
    // Concatenation.
    let lb = to_lib(&b);
    let tb = k.transformation_from_alg(&lb).map_err(|e| format!("{:?} refused: {}", print_alg(&b), e))?;
    let mut cat = la.clone();
    cat.nodes.extend(lb.nodes.iter().cloned());
    let tc = k.transformation_from_alg(&cat).map_err(|e| e.to_string())?;
    ensure!(tc == ta.apply_transformation(&tb), "the effect of {:?} followed by {:?} is not the composition, on {}", print_alg(&a), print_alg(&b), brief(&p));
    // Refusal.
    let mut bad = a.clone();
    gp::spoil(&mut c.s, &p, &mut bad);
    c.describe(|| format!("refused: {:?}", print_alg(&bad)));
    let lbad = to_lib(&bad);
    match (k.transformation_from_alg(&lbad), lp.apply_alg(&lbad)) {
        (Err(e), Err(f)) => ensure!(is_invalid_move(&e) && is_invalid_move(&f), "wrong kind of error for {:?}: {:?}", print_alg(&bad), e),
        _ => return Err(format!("{:?} is accepted on {}, which lacks one of its moves", print_alg(&bad), brief(&p))),
    }
    Ok(())
}
pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "Random algs (nested groups, commutators, conjugates, tuples, comments; some of thousands of nodes) on random and built-in puzzles are compared with performing their fully expanded move list on a pattern and with an independent evaluation; two algs are concatenated; a move the puzzle lacks is inserted at a random depth and must be refused. Non-trivial: a nested alg of three or more nodes; distinct by algs and puzzle.",
        assumptions: &["Puzzles follow the conventions of the notation (`/` is an involution, the turns of a tuple commute, moves defined with opposite amounts are mutually inverse), without which A' is ambiguous."],
        subs: vec![Sub::random("algs", 100_000, 2_000_000, c11_case)],
    }
}

// ------------------------------------------------------------------------------------ C12

fn c12_case(c: &mut Case) -> R {
    let (p, k) = any_puzzle(c, &pp(16, 10, true, true))?;
    let o = &p.orbits;
    let a = accepted_alg(c, &p);
    c.describe(|| format!("alg {:?} on {}", print_alg(&a), brief(&p)));
    c.key((&a, brief(&p)));
    let la = if c.s.bool() { to_lib(&a) } else { print_alg(&a).parse::<Alg>().map_err(|e| format!("{:?}: {}", print_alg(&a), e))? };
    let inv = la.invert();
    let pat = gp::pattern(&mut c.s, o);
    let lp = pattern_to_lib(&k, o, &pat)?;
    let e = |x: InvalidAlgError| format!("{:?} or its inverse refused on {}: {}", print_alg(&a), brief(&p), x);
    let ta = k.transformation_from_alg(&la).map_err(e)?;
    let ti = k.transformation_from_alg(&inv).map_err(e)?;
    let id = k.identity_transformation();
    c.nontrivial_if(ta != id && count_nodes(&a) >= 2);
    c.label_if(a.0.iter().any(|n| as_tuple(n).is_some()), "tuple");
    c.label_if(depth(&a) >= 3, "nesting 3+");
    ensure!(ti == ta.invert(), "the inverse of {:?} does not have the inverse effect on {}", print_alg(&a), brief(&p));
    ensure!(ta.apply_transformation(&ti) == id && ti.apply_transformation(&ta) == id, "{:?} followed by its inverse is not the identity on {}", print_alg(&a), brief(&p));
    let there = lp.apply_alg(&la).map_err(e)?.apply_alg(&inv).map_err(e)?;
    ensure_eq!(pattern_from_lib(&there), pat, "{:?} then its inverse on {}", print_alg(&a), brief(&p));
    ensure!(there == lp, "patterns with equal entries are not equal");
    let back = lp.apply_alg(&inv).map_err(e)?.apply_alg(&la).map_err(e)?;
    ensure_eq!(pattern_from_lib(&back), pat, "the inverse of {:?} then the alg on {}", print_alg(&a), brief(&p));
    ensure!(lp.apply_transformation(&ta).apply_transformation(&ta.invert()) == lp, "a transformation then its inverse");
    // As one alg, and the inverse of the inverse.
    let mut b = AlgBuilder::new(Some(&la));
    b.push(&inv);
    ensure!(k.transformation_from_alg(&b.to_alg()).map_err(e)? == id, "{:?} and its inverse as one alg on {}", print_alg(&a), brief(&p));
    ensure!(k.transformation_from_alg(&inv.invert()).map_err(e)? == ta, "inverting {:?} twice changes its effect on {}", print_alg(&a), brief(&p));
    Ok(())
}
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "Random algs, built or parsed, some of thousands of nodes, on random conventional and built-in puzzles are followed and preceded by their inverse, on random patterns (with moduli), as transformations, and as one alg. Non-trivial: two or more nodes and not the identity; distinct by alg and puzzle.",
        assumptions: &["Puzzles follow the conventions of the notation."],
        subs: vec![Sub::random("algs", 100_000, 2_000_000, c12_case)],
    }
}

// ------------------------------------------------------------------------------------ C13

fn c13_case(c: &mut Case) -> R {
    let max = *c.s.pick(&[6u8, 24, 255]);
    let os = gp::orbits(&mut c.s, max);
    c13_on(c, os)
}
fn c13_many(c: &mut Case) -> R {
    let os = gp::many_orbits(&mut c.s);
    c13_on(c, os)
}
fn c13_on(c: &mut Case, os: Vec<MOrbit>) -> R {
    let p = bare(os, &mut c.s);
    let o = &p.orbits;
    let k = lib_puzzle(&p)?;
    let (x, y) = (gp::trans(&mut c.s, o), gp::trans(&mut c.s, o));
    let pat = gp::pattern(&mut c.s, o);
    c.describe(|| format!("orbits {:?}\n pattern {:?}\n transformation {:?}", o, pat, x));
    c.key((o, &x, &pat));
    let want = apply(o, &pat, &x);
    c.nontrivial_if(want != pat);
    c.label_if(pat.0.iter().flatten().any(|e| e.2 != 0), "orientation modulus");
    c.label_if(o.iter().any(|x| x.n >= 128), "orbit of 128+ pieces");
    let (lx, ly) = (trans_to_lib(&k, o, &x)?, trans_to_lib(&k, o, &y)?);
    let lp = pattern_to_lib(&k, o, &pat)?;
    let got = lp.apply_transformation(&lx);
    ensure_eq!(pattern_from_lib(&got), want, "pattern after a transformation");
    let mut into = pattern_to_lib(&k, o, &gp::pattern(&mut c.s, o))?;
    lp.apply_transformation_into(&lx, &mut into);
    ensure_eq!(pattern_from_lib(&into), want, "pattern after a transformation into a target");
    ensure!(into == got, "application into a target differs");
    let mut buf = KPatternBuffer::from(lp.clone());
    buf.apply_transformation(&lx);
    ensure!(*buf.current() == got, "application in a buffer differs");
    let two = got.apply_transformation(&ly);
    ensure_eq!(pattern_from_lib(&two), apply(o, &want, &y), "pattern after a second transformation");
    ensure!(two == lp.apply_transformation(&lx.apply_transformation(&ly)), "applying two transformations differs from applying their composition");
    ensure!(lp.apply_transformation(&k.identity_transformation()) == lp, "the identity changes a pattern");
    ensure_eq!(pattern_from_lib(&lp), pat, "the original pattern");
    ensure_eq!(trans_from_lib(&lx), x, "the transformation afterwards");
    Ok(())
}
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "Random patterns (repeated pieces, piece labels up to 255, moduli of every divisor) and transformations on random orbit shapes, compared entry by entry with an independent model, into new and existing targets, and with the composition and identity laws. Non-trivial: the pattern changes; distinct by orbits, pattern and transformation.",
        assumptions: &["Pattern and transformation belong to one puzzle."],
        subs: vec![Sub::random("applications", 300_000, 6_000_000, c13_case), Sub::random("many orbits", 64, 1_500, c13_many)],
    }
}

// ------------------------------------------------------------------------------------ C14

fn c14_case(c: &mut Case) -> R {
    let ms = gp::supported_ms();
    let i = enum_index(c) as usize;
    let m = ms[i % ms.len()];
    let place = i / ms.len() % 2; // first or second orbit
    let pairs: Vec<(u8, u8)> = std::iter::once(0)
        .chain((1..=m).filter(|d| m % d == 0))
        .flat_map(|md| (0..if md == 0 { m } else { md }).map(move |o| (o, md)))
        .collect();
    let n = pairs.len() as u8;
    let big = MOrbit { name: "X".into(), n, m };
    let small = MOrbit { name: "Y".into(), n: 2, m: 6 };
    let os = if place == 0 { vec![big, small] } else { vec![small, big] };
    let o = &os;
    let base: Vec<(u8, u8, u8)> = vec![(3, 1, 2), (4, 5, 0)];
    let full: Vec<(u8, u8, u8)> = pairs.iter().map(|(o, md)| (7, *o, *md)).collect();
    let pat = MP(if place == 0 { vec![full.clone(), base.clone()] } else { vec![base.clone(), full.clone()] });
    let p = MPuzzle { name: "p".into(), orbits: os.clone(), default: pattern_data(o, &pat), moves: vec![], derived: None };
    let k = lib_puzzle(&p)?;
    c.describe(|| format!("{} orientations: {} pairs of orientation and modulus, {} deltas", m, pairs.len(), m));
    c.key((m, place));
    c.nontrivial_if(m > 1);
    let by_data = pattern_to_lib(&k, o, &pat)?;
    ensure_eq!(pattern_from_lib(&by_data), pat, "pattern stored from data with {} orientations", m);
    // By setters, starting from something else.
    let blank = MP(o.iter().map(|o| vec![(0, 0, 1); o.n as usize]).collect());
    let mut by_set = pattern_to_lib(&k, o, &blank)?;
    for (oi, info) in k.orbit_info_iter().enumerate() {
        for j in 0..info.num_pieces {
            let (piece, orientation, orientation_mod) = pat.0[oi][j as usize];
            by_set.set_piece(info, j, piece);
            by_set.set_orientation_with_mod(info, j, &OrientationWithMod { orientation, orientation_mod });
            let got = by_set.get_orientation_with_mod(info, j);
            ensure_eq!((got.orientation, got.orientation_mod), (orientation, orientation_mod), "what was set with {} orientations", m);
        }
    }
    ensure!(by_set == by_data, "setting every entry differs from the data ({} orientations)", m);
    for delta in 0..m {
        let t = MT(o.iter().enumerate().map(|(oi, x)| TOrbit { perm: (0..x.n).collect(), delta: vec![if oi == place { delta } else { 0 }; x.n as usize] }).collect());
        let lt = trans_to_lib(&k, o, &t)?;
        let got = pattern_from_lib(&by_data.apply_transformation(&lt));
        let want = apply(o, &pat, &t);
        for (j, (g, w)) in got.0[place].iter().zip(&want.0[place]).enumerate() {
            ensure_eq!(g, w, "orientation {} of modulus {} turned by {} with {} orientations", pairs[j].0, pairs[j].1, delta, m);
        }
        ensure_eq!(got.0[1 - place], base, "the other orbit ({} orientations)", m);
    }
    // Distinct pairs are distinct as patterns.
    let info = k.orbit_info_iter().nth(place).unwrap();
    for a in 0..pairs.len() {
        let mut x = by_data.clone();
        for b in 0..pairs.len() {
            x.set_orientation_with_mod(info, 0, &OrientationWithMod { orientation: pairs[b].0, orientation_mod: pairs[b].1 });
            let mut y = x.clone();
            y.set_orientation_with_mod(info, 0, &OrientationWithMod { orientation: pairs[a].0, orientation_mod: pairs[a].1 });
            ensure!((x == y) == (a == b), "equality of {:?} and {:?} with {} orientations", pairs[a], pairs[b], m);
        }
    }
    c.evals = pairs.len() as u64 * m as u64;
    Ok(())
}
pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "Complete enumeration: every supported orientation count, in the first and in a later orbit; every modulus and orientation, stored from data and by setters; every delta; all pairs compared. One case is one orientation count and place; its evaluations are orientation/modulus/delta triples. Non-trivial: more than one orientation.",
        assumptions: &[],
        subs: vec![Sub::enumerate("all orientation counts", 2 * gp::supported_ms().len() as u64, 2 * gp::supported_ms().len() as u64, c14_case)],
    }
}

// ------------------------------------------------------------------------------------ C15

fn hash_lib(x: &KPattern) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    x.hash(&mut h);
    h.finish()
}
/// One entry changed to something else that is valid. None if there is nothing to change.
fn nudge_pattern(s: &mut Src, o: &[MOrbit], p: &MP) -> Option<MP> {
    let places: Vec<usize> = o.iter().enumerate().filter(|(_, x)| x.n > 0).map(|(i, _)| i).collect();
    if places.is_empty() {
        return None;
    }
    let k = *s.pick(&places);
    let i = s.usize(o[k].n as usize);
    let mut q = p.clone();
    let e = &mut q.0[k][i];
    match s.usize(3) {
        0 => e.0 = e.0.wrapping_add(*s.pick(&[1u8, 255, 128, 16])),
        1 => {
            let lim = if e.2 == 0 { o[k].m } else { e.2 };
            e.1 = ((e.1 as u32 + 1) % lim as u32) as u8;
        }
        _ => {
            // Only the modulus: 0 and the orientation count itself differ only in this.
            e.2 = if e.2 == 0 {
                o[k].m
            } else if e.2 == o[k].m {
                0
            } else {
                e.2
            };
        }
    }
    Some(q)
}
fn c15_pattern(c: &mut Case) -> R {
    let max = *c.s.pick(&[6u8, 24, 255]);
    let os = gp::orbits(&mut c.s, max);
    c15_pattern_on(c, os)
}
fn c15_many(c: &mut Case) -> R {
    let os = gp::many_orbits(&mut c.s);
    if c.s.bool() {
        c15_pattern_on(c, os)
    } else {
        c15_trans_on(c, os)
    }
}
fn c15_pattern_on(c: &mut Case, os: Vec<MOrbit>) -> R {
    let mut p = bare(os, &mut c.s);
    let o = p.orbits.clone();
    let pat = gp::pattern(&mut c.s, &o);
    let mut data = pattern_data(&o, &pat);
    for x in data.values_mut() {
        if x.mods.as_ref().unwrap().iter().all(|m| *m == 0) && c.s.bool() {
            x.mods = None;
            c.label("no modulus list");
        }
    }
    p.default = data.clone();
    let k = lib_puzzle(&p)?;
    c.describe(|| format!("orbits {:?}, data {:?}", o, data));
    c.key((&o, &data));
    c.nontrivial_if(o.iter().any(|x| x.n > 1));
    let err = |e: ConversionError| format!("valid pattern data refused: {}", e);
    let a = KPattern::try_from_data(&k, &pdata_to_lib(&data)).map_err(err)?;
    let full = pattern_data(&o, &pat);
    ensure_eq!(pdata_from_lib(&a.to_data()), full, "reported data");
    ensure_eq!(pattern_from_lib(&a), pat, "entries");
    let style = c.s.below(4);
    let b = KPattern::try_from_json(&k, pdata_json(&data, style).as_bytes()).map_err(err)?;
    let again = KPattern::try_from_data(&k, &a.to_data()).map_err(err)?;
    let json = serde_json::to_string(&a.to_data()).map_err(|e| e.to_string())?;
    let d = KPattern::try_from_json(&k, json.as_bytes()).map_err(err)?;
    let def = k.default_pattern();
    let from_ref: KPattern = KPattern::from(&a);
    let moved = a.apply_transformation(&k.identity_transformation());
    let t = trans_to_lib(&k, &o, &gp::trans(&mut c.s, &o))?;
    let there_and_back = a.apply_transformation(&t).apply_transformation(&t.invert());
    // Same value, reached through the same JSON by way of another instance of the puzzle.
    let k2 = lib_puzzle(&p)?;
    let other = KPattern::try_from_data(&k2, &pdata_to_lib(&data)).map_err(err)?;
    for (what, x) in [
        ("from JSON", &b),
        ("from its reported data", &again),
        ("from its serialised data", &d),
        ("as the default pattern", &def),
        ("cloned", &a.clone()),
        ("converted from a reference", &from_ref),
        ("after the identity", &moved),
        ("after a transformation and its inverse", &there_and_back),
        ("on another instance of the puzzle", &other),
    ] {
        ensure!(*x == a, "the pattern {} is not equal to the original, data {:?}", what, data);
        ensure!(!(*x != a), "the pattern {} is both equal and unequal", what);
        ensure_eq!(hash_lib(x), hash_lib(&a), "hash of the pattern {}", what);
        ensure_eq!(pdata_from_lib(&x.to_data()), full, "data of the pattern {}", what);
    }
    if let Some(q) = nudge_pattern(&mut c.s, &o, &pat) {
        let x = pattern_to_lib(&k, &o, &q)?;
        ensure_eq!(x == a, q == pat, "equality of patterns with data\n {:?}\n {:?}", pat, q);
        ensure_eq!(a == x, q == pat, "equality is not symmetric");
        let mut set = std::collections::HashSet::new();
        set.insert(a.clone());
        ensure_eq!(set.contains(&x), q == pat, "membership in a hash set");
        ensure!(set.contains(&b), "an equal pattern is not found in a hash set");
    }
    let q = gp::pattern(&mut c.s, &o);
    let x = pattern_to_lib(&k, &o, &q)?;
    ensure_eq!(x == a, q == pat, "equality of patterns with data\n {:?}\n {:?}", pat, q);
    Ok(())
}
fn c15_trans(c: &mut Case) -> R {
    let max = *c.s.pick(&[6u8, 24, 255]);
    let os = gp::orbits(&mut c.s, max);
    c15_trans_on(c, os)
}
fn c15_trans_on(c: &mut Case, os: Vec<MOrbit>) -> R {
    let p = bare(os, &mut c.s);
    let o = p.orbits.clone();
    let k = lib_puzzle(&p)?;
    let t = gp::trans(&mut c.s, &o);
    let data = trans_data(&o, &t);
    c.describe(|| format!("orbits {:?}, data {:?}", o, data));
    c.key((&o, &data));
    c.nontrivial_if(t != identity(&o));
    let err = |e: ConversionError| format!("valid transformation data refused: {}", e);
    let a = KTransformation::try_from_data(&k, &tdata_to_lib(&data)).map_err(err)?;
    ensure_eq!(tdata_from_lib(&a.to_data()), data, "reported data");
    ensure_eq!(trans_from_lib(&a), t, "entries");
    let b = KTransformation::try_from_json(&k, tdata_json(&data).as_bytes()).map_err(err)?;
    let again = KTransformation::try_from_data(&k, &a.to_data()).map_err(err)?;
    let json = serde_json::to_string(&a.to_data()).map_err(|e| e.to_string())?;
    let d = KTransformation::try_from_json(&k, json.as_bytes()).map_err(err)?;
    let k2 = lib_puzzle(&p)?;
    let other = KTransformation::try_from_data(&k2, &tdata_to_lib(&data)).map_err(err)?;
    for (what, x) in [
        ("from JSON", &b),
        ("from its reported data", &again),
        ("from its serialised data", &d),
        ("cloned", &a.clone()),
        ("after inverting twice", &a.invert().invert()),
        ("after the identity", &k.identity_transformation().apply_transformation(&a)),
        ("on another instance of the puzzle", &other),
    ] {
        ensure!(*x == a && !(*x != a), "the transformation {} is not equal to the original, data {:?}", what, data);
        ensure_eq!(tdata_from_lib(&x.to_data()), data, "data of the transformation {}", what);
    }
    ensure_eq!(a == k.identity_transformation(), t == identity(&o), "equality with the identity");
    // Nearly equal.
    let mut q = t.clone();
    let places: Vec<usize> = o.iter().enumerate().filter(|(_, x)| x.n > 0).map(|(i, _)| i).collect();
    if !places.is_empty() {
        let w = *c.s.pick(&places);
        let n = o[w].n as usize;
        let (i, j) = (c.s.usize(n), c.s.usize(n));
        if c.s.bool() {
            q.0[w].perm.swap(i, j);
        } else {
            q.0[w].delta[i] = ((q.0[w].delta[i] as u32 + 1) % o[w].m as u32) as u8;
        }
        let x = trans_to_lib(&k, &o, &q)?;
        ensure_eq!(x == a, q == t, "equality of transformations\n {:?}\n {:?}", t, q);
        ensure_eq!(a == x, q == t, "equality is not symmetric");
        let bx = KTransformationBuffer::from(x.clone());
        let ba = KTransformationBuffer::from(a.clone());
        ensure_eq!(bx == ba, q == t, "equality of buffers");
    }
    Ok(())
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "Random pattern and transformation data on random orbit shapes are converted through data values, hand-written and serialised JSON, other instances of the puzzle and identity operations; results must be equal, hash alike and report the same data; values differing in one entry must be unequal. Non-trivial: an orbit of two or more pieces (patterns), not the identity (transformations); distinct by data.",
        assumptions: &["Values compared belong to puzzles with one definition."],
        subs: vec![Sub::random("patterns", 150_000, 3_000_000, c15_pattern), Sub::random("transformations", 150_000, 3_000_000, c15_trans), Sub::random("many orbits", 64, 1_500, c15_many)],
    }
}

// ------------------------------------------------------------------------------------ C24

fn some_u8(s: &mut Src, near: u8) -> u8 {
    match s.weighted(&[6, 3, 1]) {
        0 => s.usize((near as usize).max(1)) as u8,
        1 => near.wrapping_add(*s.pick(&[0u8, 1, 255, 2])),
        _ => s.below(256) as u8,
    }
}
fn c24_case(c: &mut Case) -> R {
    let max = *c.s.pick(&[4u8, 24, 255]);
    let os = gp::orbits(&mut c.s, max);
    c24_on(c, os)
}
fn c24_many(c: &mut Case) -> R {
    let os = gp::many_orbits(&mut c.s);
    c24_on(c, os)
}
fn c24_on(c: &mut Case, os: Vec<MOrbit>) -> R {
    let p = bare(os, &mut c.s);
    let o = p.orbits.clone();
    let k = lib_puzzle(&p)?;
    if o.is_empty() {
        return Ok(());
    }
    let mut pat = gp::pattern(&mut c.s, &o);
    let mut tr = gp::trans(&mut c.s, &o);
    let mut lp = pattern_to_lib(&k, &o, &pat)?;
    let mut lt = trans_to_lib(&k, &o, &tr)?;
    // Neighbours, which must never change.
    let (lp2, lt2) = (lp.clone(), lt.clone());
    let (pat2, tr2) = (pat.clone(), tr.clone());
    let steps = 1 + c.s.size(8, 40);
    let mut refused = 0u64;
    let infos: Vec<&KPuzzleOrbitInfo> = k.orbit_info_iter().collect();
    for _ in 0..steps {
        let w = c.s.usize(o.len());
        let (n, m, info) = (o[w].n, o[w].m, infos[w]);
        let i = some_u8(&mut c.s, n);
        let inside = i < n;
        let op = c.s.usize(8);
        let what;
        match op {
            0 => {
                what = format!("get_piece({})", i);
                let got = catches(|| lp.get_piece(info, i));
                match got {
                    Ok(g) => {
                        ensure!(inside, "{} on an orbit of {} pieces is not refused", what, n);
                        ensure_eq!(g, pat.0[w][i as usize].0, "{}", what)
                    }
                    Err(e) => ensure!(!inside, "{} on an orbit of {} pieces panicked: {}", what, n, e),
                }
            }
            1 => {
                what = format!("get_orientation_with_mod({})", i);
                let got = catches(|| {
                    let x = lp.get_orientation_with_mod(info, i);
                    (x.orientation, x.orientation_mod)
                });
                match got {
                    Ok(g) => {
                        ensure!(inside, "{} on an orbit of {} pieces is not refused", what, n);
                        let e = pat.0[w][i as usize];
                        ensure_eq!(g, (e.1, e.2), "{}", what)
                    }
                    Err(e) => ensure!(!inside, "{} on an orbit of {} pieces panicked: {}", what, n, e),
                }
            }
            2 => {
                let v = c.s.below(256) as u8;
                what = format!("set_piece({}, {})", i, v);
                let r = catches(|| lp.set_piece(info, i, v));
                ensure_eq!(r.is_ok(), inside, "{} accepted on an orbit of {} pieces", what, n);
                if inside {
                    pat.0[w][i as usize].0 = v;
                }
            }
            3 => {
                let md = match c.s.weighted(&[3, 4, 2]) {
                    0 => 0,
                    1 => {
                        let ds: Vec<u8> = (1..=m).filter(|d| m % d == 0).collect();
                        *c.s.pick(&ds)
                    }
                    _ => some_u8(&mut c.s, m),
                };
                let orientation = some_u8(&mut c.s, if md == 0 { m } else { md });
                what = format!("set_orientation_with_mod({}, {} mod {})", i, orientation, md);
                let ok = inside && if md == 0 { orientation < m } else { orientation < md && m % md == 0 };
                c.label_if(inside && !ok, "bad orientation inside");
                let r = if md == 0 && c.s.bool() {
                    catches(|| lp.set_orientation_with_mod(info, i, &OrientationWithMod::new_using_default_orientation_mod(orientation)))
                } else {
                    catches(|| lp.set_orientation_with_mod(info, i, &OrientationWithMod { orientation, orientation_mod: md }))
                };
                ensure_eq!(r.is_ok(), ok, "{} accepted with {} pieces, {} orientations ({:?})", what, n, m, r);
                if ok {
                    let e = &mut pat.0[w][i as usize];
                    e.1 = orientation;
                    e.2 = md;
                }
            }
            4 => {
                what = format!("get_permutation_idx({})", i);
                match catches(|| lt.get_permutation_idx(info, i)) {
                    Ok(g) => {
                        ensure!(inside, "{} on an orbit of {} pieces is not refused", what, n);
                        ensure_eq!(g, tr.0[w].perm[i as usize], "{}", what)
                    }
                    Err(e) => ensure!(!inside, "{} on an orbit of {} pieces panicked: {}", what, n, e),
                }
            }
            5 => {
                what = format!("get_orientation_delta({})", i);
                match catches(|| lt.get_orientation_delta(info, i)) {
                    Ok(g) => {
                        ensure!(inside, "{} on an orbit of {} pieces is not refused", what, n);
                        ensure_eq!(g, tr.0[w].delta[i as usize], "{}", what)
                    }
                    Err(e) => ensure!(!inside, "{} on an orbit of {} pieces panicked: {}", what, n, e),
                }
            }
            6 => {
                let v = some_u8(&mut c.s, n);
                what = format!("set_permutation_idx({}, {})", i, v);
                let ok = inside && v < n;
                let r = catches(|| lt.set_permutation_idx(info, i, v));
                ensure_eq!(r.is_ok(), ok, "{} accepted on an orbit of {} pieces", what, n);
                if ok {
                    tr.0[w].perm[i as usize] = v;
                }
            }
            _ => {
                let v = some_u8(&mut c.s, m);
                what = format!("set_orientation_delta({}, {})", i, v);
                let ok = inside && v < m;
                let r = catches(|| lt.set_orientation_delta(info, i, v));
                ensure_eq!(r.is_ok(), ok, "{} accepted with {} pieces, {} orientations", what, n, m);
                if ok {
                    tr.0[w].delta[i as usize] = v;
                }
            }
        }
        if !inside {
            refused += 1;
        }
        c.nontrivial_if(inside && op >= 2);
        c.key((w, i, op, what.as_str()));
        c.describe(|| format!("{} in orbit {} of {:?}", what, w, o.iter().map(|x| (x.n, x.m)).collect::<Vec<_>>()));
        ensure_eq!(pattern_from_lib(&lp), pat, "the pattern after {} in orbit {}", what, w);
        ensure_eq!(trans_from_lib(&lt), tr, "the transformation after {} in orbit {}", what, w);
    }
    c.label_if(refused > 0, "outside the orbit");
    ensure_eq!(pattern_from_lib(&lp2), pat2, "a clone of the pattern");
    ensure_eq!(trans_from_lib(&lt2), tr2, "a clone of the transformation");
    ensure_eq!(pdata_from_lib(&lp.to_data()), pattern_data(&o, &pat), "data after the edits");
    c.evals = steps as u64;
    Ok(())
}
pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "Random sequences of element reads and writes, at positions and with values inside and just or far outside what is allowed, on every orbit of random puzzles; after each one the whole pattern and transformation are compared with a model, refused accesses must panic and change nothing. Non-trivial: an access inside the orbit other than reading the first kinds; distinct by accesses.",
        assumptions: &["The orbit handle belongs to the value's puzzle."],
        subs: vec![Sub::random("accesses", 200_000, 4_000_000, c24_case), Sub::random("many orbits", 64, 1_500, c24_many)],
    }
}
