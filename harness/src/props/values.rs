//! C25–C28: equality of algs, raw access, work of evaluation, values built by hand.
use crate::engine::*;
use crate::gen::alg as g;
use crate::gen::puz as gp;
use crate::gen::puz::PuzzleParams;
use crate::model::alg::*;
use crate::model::puz::*;
use crate::props::puz::{brief, built_in, lib_puzzle};
use crate::{ensure, ensure_eq};
use cubing::alg::*;
use cubing::kpuzzle::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::Arc;

// ------------------------------------------------------------------------------------ C25

/// Changes a move in one respect; returns the kind of change.
fn nudge_move(s: &mut Src, m: &mut MMove) -> &'static str {
    match s.usize(10) {
        0 => {
            m.amount = m.amount.wrapping_neg().max(-i32::MAX);
            "amount negated"
        }
        1 => {
            m.amount = if m.amount == i32::MAX { 7 } else { m.amount + 1 };
            "amount by one"
        }
        2 => {
            let k = s.usize(31);
            m.amount = (m.amount ^ (1 << k)).max(-i32::MAX);
            "one bit of the amount"
        }
        3 => {
            m.prefix = match &m.prefix {
                MPrefix::None => MPrefix::Layer(g::layer(s)),
                MPrefix::Layer(a) => match s.usize(3) {
                    0 => MPrefix::None,
                    1 => MPrefix::Range(*a, *a),
                    _ => MPrefix::Layer(a ^ (1 << s.usize(32))),
                },
                MPrefix::Range(a, b) => match s.usize(5) {
                    0 => MPrefix::None,
                    1 => MPrefix::Layer(*a),
                    2 => MPrefix::Range(*b, *a),
                    3 => MPrefix::Range(*a ^ (1 << s.usize(32)), *b),
                    _ => MPrefix::Range(*a, *b ^ (1 << s.usize(32))),
                },
            };
            "prefix"
        }
        4 => {
            let cs: Vec<char> = m.family.chars().collect();
            let i = s.usize(cs.len());
            let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            m.family = cs.iter().enumerate().map(|(j, c)| if i == j { flip(*c) } else { *c }).collect();
            "case of a letter"
        }
        5 => {
            let i = s.usize(m.family.len() + 1);
            m.family.insert(i, *s.pick(&['_', 'R', 'w', 'x']));
            "a letter inserted"
        }
        6 if m.family.len() > 1 => {
            let i = s.usize(m.family.len());
            m.family.remove(i);
            "a letter removed"
        }
        7 => {
            m.family += s.pick(&[PLUS, PLUSPLUS]);
            "suffix"
        }
        8 => {
            m.family = g::family(s);
            "family"
        }
        _ => {
            *m = g::any_move(s);
            "another move"
        }
    }
}
/// Changes one place of an alg.
fn nudge(s: &mut Src, a: &mut MAlg) -> &'static str {
    if a.0.is_empty() {
        a.0.push(match s.usize(4) {
            0 => MNode::Pause,
            1 => MNode::Newline,
            2 => MNode::Comment(g::comment(s)),
            _ => MNode::Move(g::any_move(s)),
        });
        return "a node inserted";
    }
    // Any place of the tree: descends with some probability.
    let i = s.usize(a.0.len());
    if s.chance(2, 3) {
        match &mut a.0[i] {
            MNode::Group(x, _) => return nudge(s, x),
            MNode::Comm(x, y) | MNode::Conj(x, y) => return if s.bool() { nudge(s, x) } else { nudge(s, y) },
            _ => {}
        }
    }
    match s.usize(8) {
        0 => {
            a.0.remove(i);
            return "a node removed";
        }
        1 => {
            let x = a.0[i].clone();
            a.0.insert(i, x);
            return "a node doubled";
        }
        2 => {
            let x = match s.usize(3) {
                0 => MNode::Pause,
                1 => MNode::Newline,
                _ => MNode::Move(g::any_move(s)),
            };
            let at = s.usize(a.0.len() + 1);
            a.0.insert(at, x);
            return "a node inserted";
        }
        3 if a.0.len() > 1 => {
            let j = s.usize(a.0.len());
            a.0.swap(i, j);
            return "two nodes swapped";
        }
        4 => {
            let x = std::mem::replace(&mut a.0[i], MNode::Pause);
            a.0[i] = MNode::Group(MAlg(vec![x]), 1);
            return "a node grouped once";
        }
        _ => {}
    }
    let n = std::mem::replace(&mut a.0[i], MNode::Pause);
    let (n, what) = match n {
        MNode::Move(mut m) => {
            let w = nudge_move(s, &mut m);
            (MNode::Move(m), w)
        }
        MNode::Pause => (MNode::Newline, "kind of node"),
        MNode::Newline => (MNode::Pause, "kind of node"),
        MNode::Comment(t) => match s.usize(3) {
            0 => (MNode::Comment(t + " "), "text of a comment"),
            1 => (MNode::Comment(t.chars().skip(1).collect()), "text of a comment"),
            _ => (MNode::Comment(g::comment(s)), "text of a comment"),
        },
        MNode::Group(x, am) => match s.usize(5) {
            0 => (MNode::Group(x, am.wrapping_neg().max(-i32::MAX)), "amount of a group negated"),
            1 => (MNode::Group(x, (am ^ (1 << s.usize(31))).max(-i32::MAX)), "one bit of the amount of a group"),
            2 => (MNode::Comm(x.clone(), x), "kind of node"),
            3 => (MNode::Group(MAlg(vec![MNode::Group(x, am)]), 1), "a node grouped once"),
            _ => {
                // The group unpacked.
                let k = x.0.len();
                a.0.splice(i..=i, x.0);
                return if k == 0 { "an empty group removed" } else { "a group unpacked" };
            }
        },
        MNode::Comm(x, y) => match s.usize(3) {
            0 => (MNode::Conj(x, y), "kind of node"),
            1 => (MNode::Comm(y, x), "halves swapped"),
            _ => (MNode::Comm(x, MAlg(vec![])), "half emptied"),
        },
        MNode::Conj(x, y) => match s.usize(3) {
            0 => (MNode::Comm(x, y), "kind of node"),
            1 => (MNode::Conj(y, x), "halves swapped"),
            _ => (MNode::Conj(x, MAlg(vec![])), "half emptied"),
        },
    };
    a.0[i] = n;
    what
}
fn both<T: PartialEq + ?Sized>(x: &T, y: &T, want: bool, what: &dyn Fn() -> String) -> R {
    #[allow(clippy::nonminimal_bool)]
    let got = [x == y, y == x, !(x != y), !(y != x)];
    ensure!(got == [want; 4], "{}: == / reversed / not != / reversed gave {:?}, expected {}", what(), got, want);
    Ok(())
}
/// Builds the alg with the parts of `like` shared wherever they mean the same.
fn share_alg(a: &MAlg, like: &Alg) -> Alg {
    let nodes = a
        .0
        .iter()
        .enumerate()
        .map(|(i, n)| match like.nodes.get(i).or(like.nodes.last()) {
            Some(l) => share_node(n, l),
            None => node_to_lib(n),
        })
        .collect();
    Alg { nodes }
}
fn share_arc(a: &MAlg, like: &Arc<Alg>) -> Arc<Alg> {
    if from_lib(like) == *a {
        like.clone()
    } else {
        Arc::new(share_alg(a, like))
    }
}
fn share_node(n: &MNode, like: &AlgNode) -> AlgNode {
    match (n, like) {
        (MNode::Move(m), AlgNode::MoveNode(l)) if quantum_from_lib(&l.quantum) == (m.prefix.clone(), m.family.clone()) => Move { quantum: l.quantum.clone(), amount: m.amount }.into(),
        (MNode::Group(x, am), AlgNode::GroupingNode(l)) => Grouping { alg: share_arc(x, &l.alg), amount: *am }.into(),
        (MNode::Comm(x, y), AlgNode::CommutatorNode(l)) => Commutator { a: share_arc(x, &l.a), b: share_arc(y, &l.b) }.into(),
        (MNode::Conj(x, y), AlgNode::ConjugateNode(l)) => Conjugate { a: share_arc(x, &l.a), b: share_arc(y, &l.b) }.into(),
        (MNode::Comm(x, y), AlgNode::ConjugateNode(l)) => Commutator { a: share_arc(x, &l.a), b: share_arc(y, &l.b) }.into(),
        (MNode::Conj(x, y), AlgNode::CommutatorNode(l)) => Conjugate { a: share_arc(x, &l.a), b: share_arc(y, &l.b) }.into(),
        _ => node_to_lib(n),
    }
}
/// One of the ways in which the library produces a value for this alg.
fn produce(s: &mut Src, a: &MAlg, like: Option<&Alg>) -> (Alg, &'static str) {
    let built = to_lib(a);
    let r = match s.usize(7) {
        0 => return (built, "built"),
        1 => (Alg::from_str(&print_alg(a)).ok(), "parsed"),
        2 => (Some(built.invert().invert()), "inverted twice"),
        3 => (serde_json::to_string(&built).ok().and_then(|j| serde_json::from_str(&j).ok()), "from JSON"),
        4 => {
            let mut b = AlgBuilder::default();
            for n in &built.nodes {
                b.push(n);
            }
            (Some(b.to_alg()), "from a builder")
        }
        5 => {
            let mut x = built.clone();
            let n = x.nodes.len();
            // Edited and restored in place.
            x.nodes.push(AlgNode::PauseNode(Pause {}));
            let _ = x == built;
            x.nodes.truncate(n);
            (Some(x), "edited and restored")
        }
        _ => match like {
            Some(l) => (Some(share_alg(a, l)), "sharing parts"),
            None => (Some(built.clone()), "cloned"),
        },
    };
    match r {
        // Printing and reading may write an equivalent alg; only the same alg is of use here.
        (Some(x), how) if from_lib(&x) == *a => (x, how),
        _ => (built, "built"),
    }
}
fn c25_algs(c: &mut Case) -> R {
    let a = if c.s.chance(1, 500) { g::long_text_alg(&mut c.s).0 } else { g::built_alg(&mut c.s) };
    let mut b = a.clone();
    let mut kinds = vec![];
    for _ in 0..c.s.weighted(&[3, 8, 2]) {
        kinds.push(nudge(&mut c.s, &mut b));
    }
    if kinds.is_empty() && c.s.chance(1, 8) {
        b = g::built_alg(&mut c.s);
        kinds.push("another alg");
    }
    for k in &kinds {
        c.label(k);
    }
    let (x, how_x) = produce(&mut c.s, &a, None);
    let (y, how_y) = produce(&mut c.s, &b, Some(&x));
    c.label(how_x);
    c.label(how_y);
    c.describe(|| format!("{:?} ({}) and {:?} ({}), {:?}", print_alg(&a), how_x, print_alg(&b), how_y, kinds));
    c.key((&a, &b));
    c.nontrivial_if(count_nodes(&a) >= 2);
    c.label(if a == b { "equal" } else { "different" });
    let what = |w: &'static str| {
        let (a, b) = (&a, &b);
        move || format!("comparing {} {:?} ({}) and {:?} ({})", w, print_alg(a), how_x, print_alg(b), how_y)
    };
    both(&x, &x, true, &what("an alg with itself"))?;
    both(&x, &x.clone(), true, &what("an alg with its clone"))?;
    both(&x, &y, a == b, &what("algs"))?;
    both(&Arc::new(x.clone()), &Arc::new(y.clone()), a == b, &what("shared algs"))?;
    // Nodes against nodes, and against nodes of the same alg.
    let la = a.0.len().min(5);
    let lb = b.0.len().min(5);
    for i in 0..la {
        for j in 0..lb {
            both(&x.nodes[i], &y.nodes[j], a.0[i] == b.0[j], &what("nodes of"))?;
        }
        for j in 0..la {
            both(&x.nodes[i], &x.nodes[j], a.0[i] == a.0[j], &what("nodes within"))?;
        }
    }
    if let (Some(AlgNode::GroupingNode(p)), Some(AlgNode::GroupingNode(q))) = (x.nodes.first(), y.nodes.first()) {
        both(p, q, a.0[0] == b.0[0], &what("groups of"))?;
    }
    if let (Some(AlgNode::CommutatorNode(p)), Some(AlgNode::CommutatorNode(q))) = (x.nodes.first(), y.nodes.first()) {
        both(p, q, a.0[0] == b.0[0], &what("commutators of"))?;
    }
    if let (Some(AlgNode::ConjugateNode(p)), Some(AlgNode::ConjugateNode(q))) = (x.nodes.first(), y.nodes.first()) {
        both(p, q, a.0[0] == b.0[0], &what("conjugates of"))?;
    }
    // Made equal in place: y turned into a, and compared again.
    let mut z = y.clone();
    let _ = z == x;
    z.nodes = x.nodes.clone();
    both(&z, &x, true, &what("after assigning the nodes,"))?;
    both(&z, &y, a == b, &what("after assigning the nodes,"))?;
    both(&y, &x, a == b, &what("once more"))?;
    Ok(())
}
fn std_hash(h: impl Hash) -> u64 {
    let mut d = DefaultHasher::new();
    h.hash(&mut d);
    d.finish()
}
fn c25_moves(c: &mut Case) -> R {
    // A small population of moves, most of them variations of one another.
    let mut ms = vec![g::any_move(&mut c.s)];
    let n = 2 + c.s.usize(10);
    while ms.len() < n {
        let i = c.s.usize(ms.len());
        let mut m = ms[i].clone();
        match c.s.weighted(&[6, 1, 1]) {
            0 => {
                let how = nudge_move(&mut c.s, &mut m);
                c.label(how);
            }
            1 => {}
            _ => m = g::any_move(&mut c.s),
        }
        ms.push(m);
    }
    c.key(&ms);
    c.describe(|| format!("moves {}", ms.iter().map(print_move).collect::<Vec<_>>().join(" ")));
    let xs: Vec<Move> = ms
        .iter()
        .map(|m| {
            let l = move_to_lib(m);
            match c.s.usize(4) {
                0 => l.invert().invert(),
                1 => Move::from_str(&print_move(m)).ok().filter(|x| move_from_lib(x) == *m).unwrap_or(l),
                2 => l.clone(),
                _ => l,
            }
        })
        .collect();
    for (m, x) in ms.iter().zip(&xs) {
        ensure_eq!(move_from_lib(x), m.clone(), "a move through its parser or two inversions");
    }
    let mut same = 0;
    for i in 0..n {
        for j in 0..n {
            let (m, k) = (&ms[i], &ms[j]);
            let eq = m == k;
            let w = || format!("comparing {} and {}", print_move(m), print_move(k));
            both(&xs[i], &xs[j], eq, &w)?;
            both(&AlgNode::from(xs[i].clone()), &AlgNode::from(xs[j].clone()), eq, &w)?;
            both(&*xs[i].quantum, &*xs[j].quantum, m.prefix == k.prefix && m.family == k.family, &|| "quantum moves: ".to_owned() + &w())?;
            both(&xs[i].quantum.prefix, &xs[j].quantum.prefix, m.prefix == k.prefix, &|| "prefixes: ".to_owned() + &w())?;
            if let (Some(MovePrefix::Layer(p)), Some(MovePrefix::Layer(q))) = (&xs[i].quantum.prefix, &xs[j].quantum.prefix) {
                both(p, q, p.layer == q.layer, &|| "layers: ".to_owned() + &w())?;
                ensure!(p != q || std_hash(p) == std_hash(q), "equal layers hash differently: {}", w());
            }
            if let (Some(MovePrefix::Range(p)), Some(MovePrefix::Range(q))) = (&xs[i].quantum.prefix, &xs[j].quantum.prefix) {
                both(p, q, (p.outer_layer, p.inner_layer) == (q.outer_layer, q.inner_layer), &|| "ranges: ".to_owned() + &w())?;
                ensure!(p != q || std_hash(p) == std_hash(q), "equal ranges hash differently: {}", w());
            }
            if eq {
                ensure!(std_hash(&xs[i]) == std_hash(&xs[j]) && hash_of(&xs[i]) == hash_of(&xs[j]), "equal moves hash differently: {}", w());
            }
            if m.prefix == k.prefix && m.family == k.family {
                ensure!(std_hash(&*xs[i].quantum) == std_hash(&*xs[j].quantum), "equal quantum moves hash differently: {}", w());
                same += (i != j) as usize;
            }
        }
    }
    c.nontrivial_if(n >= 3);
    c.label_if(same > 0, "same quantum, other amount");
    // As keys: the map behaves as a map keyed by the written structure.
    let mut map: HashMap<Move, usize> = HashMap::new();
    let mut set: HashSet<QuantumMove> = HashSet::new();
    let mut want: std::collections::BTreeMap<MMove, usize> = Default::default();
    let mut wset: std::collections::BTreeSet<(MPrefix, String)> = Default::default();
    for (i, x) in xs.iter().enumerate() {
        if c.s.chance(1, 4) {
            ensure_eq!(map.remove(x), want.remove(&ms[i]), "removing {} from a map", print_move(&ms[i]));
        } else {
            ensure_eq!(map.insert(x.clone(), i), want.insert(ms[i].clone(), i), "inserting {} into a map", print_move(&ms[i]));
        }
        ensure_eq!(set.insert((*x.quantum).clone()), wset.insert((ms[i].prefix.clone(), ms[i].family.clone())), "inserting the quantum of {} into a set", print_move(&ms[i]));
        for (j, y) in xs.iter().enumerate() {
            ensure_eq!(map.get(y), want.get(&ms[j]), "looking {} up in a map", print_move(&ms[j]));
        }
        ensure_eq!(map.len(), want.len(), "size of the map");
    }
    Ok(())
}
pub fn c25() -> Prop {
    Prop {
        id: "C25",
        rule: "Pairs of algs that are the same or differ in one or two places (family, prefix, amount, comment, kind, order, grouping), each produced in a random way (built, parsed, inverted twice, through JSON, through a builder, edited in place, sharing parts), and populations of moves that vary in one respect, also used as keys of maps and sets. Equality is compared with equality of the model trees. Non-trivial: two or more nodes, or three or more moves; distinct by the trees.",
        assumptions: &["Amounts are within the range a text can express."],
        subs: vec![Sub::random("algs", 500_000, 8_000_000, c25_algs), Sub::random("moves", 150_000, 2_000_000, c25_moves)],
    }
}

// ------------------------------------------------------------------------------------ C26

fn bare(os: Vec<MOrbit>, s: &mut Src) -> MPuzzle {
    let d = gp::pattern(s, &os);
    let default = pattern_data(&os, &d);
    MPuzzle { name: "bare".to_owned(), default, orbits: os, moves: vec![], derived: None }
}
/// An orientation and modulus an orbit with `m` orientations can hold.
fn ori(s: &mut Src, m: u8) -> (u8, u8) {
    let md = if s.chance(1, 3) {
        0
    } else {
        let ds: Vec<u8> = (1..=m).filter(|d| m % d == 0).collect();
        *s.pick(&ds)
    };
    (s.usize(if md == 0 { m } else { md } as usize) as u8, md)
}
fn c26_case(c: &mut Case) -> R {
    let max = *c.s.pick(&[4u8, 24, 255]);
    let os = gp::orbits(&mut c.s, max);
    c26_on(c, os)
}
fn c26_many(c: &mut Case) -> R {
    let os = gp::many_orbits(&mut c.s);
    c26_on(c, os)
}
fn c26_on(c: &mut Case, os: Vec<MOrbit>) -> R {
    let p = bare(os, &mut c.s);
    let o = p.orbits.clone();
    let k = lib_puzzle(&p)?;
    let mut pat = gp::pattern(&mut c.s, &o);
    let mut tr = gp::trans(&mut c.s, &o);
    let mut lp = pattern_to_lib(&k, &o, &pat)?;
    let mut lt = trans_to_lib(&k, &o, &tr)?;
    let (first_p, first_t) = (lp.clone(), lt.clone());
    let (pat0, tr0) = (pat.clone(), tr.clone());
    let bytes = o.iter().map(|x| 2 * x.n as usize).sum::<usize>();
    let places: Vec<usize> = (0..o.len()).filter(|i| o[*i].n > 0).collect();
    let infos: Vec<&KPuzzleOrbitInfo> = k.orbit_info_iter().collect();
    let steps = if places.is_empty() { 0 } else { 1 + c.s.size(8, 40) };
    let shape: Vec<(u8, u8)> = o.iter().map(|x| (x.n, x.m)).collect();
    let sizes = |lp: &KPattern, lt: &KTransformation| -> R {
        let (a, b) = unsafe { (lp.byte_slice().len(), lt.byte_slice().len()) };
        ensure!(a == unsafe { first_p.byte_slice().len() } && b == unsafe { first_t.byte_slice().len() }, "the number of bytes of a value changes with the value: {:?}", (a, b));
        Ok(())
    };
    let bytes_equal = |lp: &KPattern, lt: &KTransformation, pat: &MP, tr: &MT, what: &str| -> R {
        // Bytes are equal exactly when the values are.
        let fresh_p = pattern_to_lib(&k, &o, pat)?;
        let fresh_t = trans_to_lib(&k, &o, tr)?;
        unsafe {
            ensure!(fresh_p.byte_slice() == lp.byte_slice() && fresh_p == *lp, "equal patterns have different bytes after {}", what);
            ensure!(fresh_t.byte_slice() == lt.byte_slice() && fresh_t == *lt, "equal transformations have different bytes after {}", what);
            ensure_eq!(first_p.byte_slice() == lp.byte_slice(), pat0 == *pat, "whether the bytes of the pattern are those before the edits, after {}", what);
            ensure_eq!(first_t.byte_slice() == lt.byte_slice(), tr0 == *tr, "whether the bytes of the transformation are those before the edits, after {}", what);
            ensure!(lp.packed_orbit_data().byte_slice() == lp.byte_slice() && lt.packed_orbit_data().byte_slice() == lt.byte_slice(), "the bytes differ between accessors");
            ensure_eq!(lp.packed_orbit_data() == first_p.packed_orbit_data(), pat0 == *pat, "equality of the packed data of patterns");
            ensure_eq!(lt.packed_orbit_data() == first_t.packed_orbit_data(), tr0 == *tr, "equality of the packed data of transformations");
            let copy = lp.packed_orbit_data().clone();
            ensure!(copy == *lp.packed_orbit_data() && std_hash(&copy) == std_hash(lp.packed_orbit_data()), "a clone of the packed data is different");
            ensure_eq!(copy.kpuzzle().definition().name, p.name, "the puzzle of the packed data");
        }
        Ok(())
    };
    for _ in 0..steps {
        let w = *c.s.pick(&places);
        let (n, m, info) = (o[w].n, o[w].m, infos[w]);
        let i = if c.s.chance(1, 4) { n - 1 } else { c.s.usize(n as usize) as u8 };
        let iu = i as usize;
        let op = c.s.usize(13);
        let what;
        unsafe {
            match op {
                0 => {
                    what = format!("get_permutation_idx_unchecked({})", i);
                    ensure_eq!(lt.get_permutation_idx_unchecked(info, i), tr.0[w].perm[iu], "{} in {:?}", what, shape);
                }
                1 => {
                    what = format!("get_orientation_delta_unchecked({})", i);
                    ensure_eq!(lt.get_orientation_delta_unchecked(info, i), tr.0[w].delta[iu], "{} in {:?}", what, shape);
                }
                2 => {
                    // Two entries exchanged, so that the value remains a permutation.
                    let j = c.s.usize(n as usize) as u8;
                    what = format!("exchange {} and {} by set_permutation_idx_unchecked", i, j);
                    let (a, b) = (tr.0[w].perm[iu], tr.0[w].perm[j as usize]);
                    lt.set_permutation_idx_unchecked(info, i, b);
                    lt.set_permutation_idx_unchecked(info, j, a);
                    tr.0[w].perm.swap(iu, j as usize);
                }
                3 => {
                    let v = c.s.usize(m as usize) as u8;
                    what = format!("set_orientation_delta_unchecked({}, {})", i, v);
                    lt.set_orientation_delta_unchecked(info, i, v);
                    tr.0[w].delta[iu] = v;
                }
                4 => {
                    what = format!("get_orientation_with_mod_unchecked({})", i);
                    let x = lp.get_orientation_with_mod_unchecked(info, i);
                    ensure_eq!((x.orientation, x.orientation_mod), (pat.0[w][iu].1, pat.0[w][iu].2), "{} in {:?}", what, shape);
                }
                5 => {
                    let v = c.s.byte();
                    what = format!("set_piece_unchecked({}, {})", i, v);
                    lp.set_piece_unchecked(info, i, v);
                    pat.0[w][iu].0 = v;
                }
                6 => {
                    let (orientation, orientation_mod) = ori(&mut c.s, m);
                    what = format!("set_orientation_with_mod_unchecked({}, {} mod {})", i, orientation, orientation_mod);
                    lp.set_orientation_with_mod_unchecked(info, i, &OrientationWithMod { orientation, orientation_mod });
                    pat.0[w][iu].1 = orientation;
                    pat.0[w][iu].2 = orientation_mod;
                }
                7 => {
                    what = format!("raw permutation value {}", i);
                    ensure_eq!(lt.packed_orbit_data().get_raw_piece_or_permutation_value(info, i), tr.0[w].perm[iu], "{} in {:?}", what, shape);
                    ensure_eq!(lp.packed_orbit_data().get_raw_piece_or_permutation_value(info, i), pat.0[w][iu].0, "raw piece {} in {:?}", i, shape);
                }
                8 => {
                    what = format!("raw orientation delta {}", i);
                    ensure_eq!(lt.packed_orbit_data().get_raw_orientation_value(info, i), tr.0[w].delta[iu], "{} in {:?}", what, shape);
                }
                9 => {
                    let v = c.s.byte();
                    what = format!("set raw piece {} to {}", i, v);
                    lp.packed_orbit_data_mut().set_raw_piece_or_permutation_value(info, i, v);
                    pat.0[w][iu].0 = v;
                }
                10 => {
                    let v = c.s.usize(m as usize) as u8;
                    what = format!("set raw orientation delta {} to {}", i, v);
                    lt.packed_orbit_data_mut().set_raw_orientation_value(info, i, v);
                    tr.0[w].delta[iu] = v;
                }
                11 => {
                    // The packed orientation of one position carried to another.
                    let j = c.s.usize(n as usize) as u8;
                    what = format!("copy the raw orientation of {} to {}", j, i);
                    let v = lp.packed_orbit_data().get_raw_orientation_value(info, j);
                    lp.packed_orbit_data_mut().set_raw_orientation_value(info, i, v);
                    let e = pat.0[w][j as usize];
                    pat.0[w][iu].1 = e.1;
                    pat.0[w][iu].2 = e.2;
                }
                _ => {
                    let (orientation, orientation_mod) = ori(&mut c.s, m);
                    what = format!("set_orientation_with_mod({}, {} mod {})", i, orientation, orientation_mod);
                    lp.set_orientation_with_mod(info, i, &OrientationWithMod { orientation, orientation_mod });
                    pat.0[w][iu].1 = orientation;
                    pat.0[w][iu].2 = orientation_mod;
                }
            }
        }
        c.nontrivial_if(op != 12 && n >= 2);
        c.key((w, i, op, what.as_str()));
        c.describe(|| format!("{} in orbit {} of {:?}", what, w, shape));
        ensure_eq!(pattern_from_lib(&lp), pat, "the pattern after {} in orbit {} of {:?}", what, w, shape);
        ensure_eq!(trans_from_lib(&lt), tr, "the transformation after {} in orbit {} of {:?}", what, w, shape);
        sizes(&lp, &lt)?;
        bytes_equal(&lp, &lt, &pat, &tr, &what)?;
    }
    if places.is_empty() {
        bytes_equal(&lp, &lt, &pat, &tr, "nothing, without pieces")?;
    }
    c.label_if(o.len() >= 9, "many orbits");
    c.label_if(bytes > 256, "over 256 bytes");
    // Edited values still act as their data say.
    ensure_eq!(pattern_from_lib(&lp.apply_transformation(&lt)), apply(&o, &pat, &tr), "the edited transformation applied to the edited pattern");
    ensure_eq!(trans_from_lib(&lt.apply_transformation(&first_t)), compose(&o, &tr, &tr0), "the edited transformation followed by the first");
    ensure_eq!(pattern_from_lib(&first_p), pat0, "an earlier clone of the pattern");
    ensure_eq!(trans_from_lib(&first_t), tr0, "an earlier clone of the transformation");
    c.evals = steps as u64;
    Ok(())
}
/// The table every orbit carries: packing, unpacking and turning, for every orientation count.
fn c26_packer(c: &mut Case) -> R {
    let i = enum_index(c) as usize;
    let ms = gp::supported_ms();
    let Some(m) = ms.get(i).copied() else { return Ok(()) };
    let p = bare(vec![MOrbit { name: "A".into(), n: 1, m }], &mut c.s);
    let k = lib_puzzle(&p)?;
    let info = k.orbit_info_iter().next().ok_or("no orbit")?;
    let pk = &info.orientation_packer;
    c.describe(|| format!("all orientations, moduli and deltas of {} orientations", m));
    c.key(m);
    c.nontrivial_if(m >= 2);
    let mut seen: HashMap<u8, (u8, u8)> = HashMap::new();
    let mut n = 0;
    for md in (0..=m).filter(|d| *d == 0 || m % d == 0) {
        let f = if md == 0 { m } else { md };
        for x in 0..f {
            let v = pk.pack(&OrientationWithMod { orientation: x, orientation_mod: md });
            if let Some(other) = seen.insert(v, (x, md)) {
                return Err(format!("{:?} and {:?} have one packed value with {} orientations", other, (x, md), m));
            }
            let u = pk.unpack(&v);
            ensure_eq!((u.orientation, u.orientation_mod), (x, md), "unpacking what was packed, {} orientations", m);
            for d in 0..m {
                let t = pk.transform(v, d);
                let u = pk.unpack(&t);
                ensure_eq!((u.orientation, u.orientation_mod), (((x as u32 + d as u32) % f as u32) as u8, md), "turning {} mod {} by {} with {} orientations", x, md, d, m);
                n += 1;
            }
        }
    }
    c.evals = n;
    Ok(())
}
pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "Random sequences of unchecked and raw reads and writes at valid positions with valid values, on every orbit of random puzzles, compared with a model of the whole value after each; bytes are equal exactly when values are; the packing table is enumerated for every orientation count. Non-trivial: an unchecked or raw access in an orbit of two or more pieces; distinct by accesses.",
        assumptions: &["Positions and values are within the documented range, as unchecked access requires.", "The layout of the bytes is not specified, only that equal values have equal bytes of one fixed length."],
        subs: vec![
            Sub::random("accesses", 100_000, 2_000_000, c26_case),
            Sub::random("many orbits", 64, 1_500, c26_many),
            Sub::enumerate("packing", gp::supported_ms().len() as u64, gp::supported_ms().len() as u64, c26_packer),
        ],
    }
}

// ------------------------------------------------------------------------------------ C27

/// log2 of an amount's size, plus one.
fn lg(n: i32) -> u64 {
    33 - n.unsigned_abs().leading_zeros() as u64
}
/// Steps of an evaluation that visits every node once, derived moves spelled out.
fn steps(p: &MPuzzle, a: &MAlg, memo: &mut HashMap<MMove, u64>) -> u64 {
    let mut t = 0u64;
    for n in &a.0 {
        t = t.saturating_add(match n {
            MNode::Move(m) => match p.resolve(m) {
                Some(Resolved::Derived(k, d, r)) => {
                    let inner = match memo.get(k) {
                        Some(x) => *x,
                        None => {
                            let x = steps(p, d, memo);
                            memo.insert(k.clone(), x);
                            x
                        }
                    };
                    inner.saturating_add(1 + lg(r as i32))
                }
                Some(Resolved::Direct(_, _, r)) => 1 + lg(r as i32),
                None => 1,
            },
            MNode::Group(i, k) => steps(p, i, memo).saturating_add(1 + lg(*k)),
            MNode::Comm(x, y) => steps(p, x, memo).saturating_add(steps(p, y, memo)).saturating_add(5),
            MNode::Conj(x, y) => steps(p, x, memo).saturating_add(steps(p, y, memo)).saturating_add(4),
            _ => 1,
        });
    }
    t
}
/// Allocations and bytes per step that an evaluation may use; the current tree needs fewer than 4
/// allocations and 5 values' bytes.
const PER_STEP: u64 = 24;

fn big_amount(s: &mut Src) -> i32 {
    let v = match s.weighted(&[3, 3, 1]) {
        0 => i32::MAX - s.usize(3) as i32,
        1 => ((1i64 << s.range(12, 31)) - 1 - s.usize(2) as i64) as i32,
        _ => g::amount(s),
    };
    if s.bool() {
        -v
    } else {
        v
    }
}
/// Deep or long algs with large amounts; commutators and conjugates nested on either side.
fn heavy_alg(s: &mut Src, p: &MPuzzle, small_nest: bool) -> MAlg {
    let known = |s: &mut Src| MNode::Move(gp::known_move(s, p, true));
    match s.weighted(&[4, 4, 2]) {
        0 => {
            let mut a = MAlg(vec![known(s)]);
            let d = if small_nest { s.size(6, 12) } else { 2 + s.size(20, 60) };
            let style = s.usize(7);
            for _ in 0..d {
                let m = MAlg(vec![known(s)]);
                let k = if style == 6 { s.usize(6) } else { style };
                a = MAlg(vec![match k {
                    0 => MNode::Group(a, big_amount(s)),
                    1 => MNode::Comm(a, m),
                    2 => MNode::Comm(m, a),
                    3 => MNode::Conj(a, m),
                    4 => MNode::Conj(m, a),
                    _ => MNode::Group(a, if s.bool() { -1 } else { 2 }),
                }]);
            }
            a
        }
        1 => {
            let mut a = gp::puzzle_alg(s, p, 4, 5, 60, false);
            for n in a.0.iter_mut() {
                if let MNode::Group(_, k) = n {
                    *k = big_amount(s);
                }
            }
            a
        }
        _ => {
            let n = s.size(20, 200);
            MAlg((0..n).map(|_| known(s)).collect())
        }
    }
}
fn c27_case(c: &mut Case) -> R {
    let (p, k) = if c.s.chance(1, 4) {
        c.label("built-in puzzle");
        built_in(c.s.bool())
    } else {
        let conventional = c.s.bool();
        let mut p = gp::puzzle(&mut c.s, &PuzzleParams { max_pieces: 12, max_moves: 6, conventional, derived: true, shadow: false });
        if c.s.chance(1, 12) {
            // What else the puzzle defines costs nothing.
            c.label("hundreds of other moves");
            let id = trans_data(&p.orbits, &identity(&p.orbits));
            for i in 0..100 + c.s.size(100, 400) {
                let m = MMove { prefix: MPrefix::Layer(i as u32), family: "OTHER".into(), amount: 1 };
                match &mut p.derived {
                    Some(d) if i % 2 == 1 => d.push((m, MAlg(vec![MNode::Pause, MNode::Newline]))),
                    _ => p.moves.push((m, id.clone())),
                }
            }
        }
        let k = lib_puzzle(&p)?;
        (p, k)
    };
    let mut a = heavy_alg(&mut c.s, &p, false);
    let mut n = steps(&p, &a, &mut HashMap::new());
    if n > 6000 {
        a = MAlg(vec![MNode::Move(gp::known_move(&mut c.s, &p, true))]);
        n = steps(&p, &a, &mut HashMap::new());
    }
    if n > 6000 {
        return Ok(());
    }
    c.describe(|| format!("{} steps: {:?} on {}", n, print_alg(&a).chars().take(400).collect::<String>(), brief(&p)));
    c.key((&a, &p.name));
    let mut ms = vec![];
    moves_in(&a, &mut ms);
    c.nontrivial_if(depth(&a) >= 3 || ms.iter().any(|m| m.amount.unsigned_abs() > 1000));
    c.label_if(depth(&a) >= 12, "nesting 12+");
    c.label_if(ms.iter().any(|m| m.amount.unsigned_abs() > 1 << 24), "amount over 2^24");
    let value = p.orbits.iter().map(|o| 2 * o.n as u64).sum::<u64>();
    let limit = PER_STEP * (n + 2);
    // Looking a move up may clone its definition's data or names.
    let names = p.orbits.iter().map(|o| o.name.len() as u64 + 300).sum::<u64>() + 600;
    let bytes = limit * (value + names);
    let la = to_lib(&a);
    let lp = k.identity_transformation();
    let pat = pattern_to_lib(&k, &p.orbits, &gp::pattern(&mut c.s, &p.orbits))?;
    let note = format!("evaluating {:?}, {} steps on a puzzle of {} bytes, made more than {} allocations or took more than {} bytes", print_alg(&a).chars().take(600).collect::<String>(), n, value, limit, bytes);
    shared_note(note.as_bytes());
    let (t, _, _) = crate::alloc::counted(limit, bytes, || k.transformation_from_alg(&la));
    let t = t.map_err(|e| format!("{:?} refused: {}", print_alg(&a), e))?;
    let (q, _, _) = crate::alloc::counted(limit + PER_STEP, bytes + bytes / n.max(1), || pat.apply_alg(&la));
    let q = q.map_err(|e| format!("{:?} refused: {}", print_alg(&a), e))?;
    ensure!(pat.apply_transformation(&t) == q, "applying {:?} differs from applying its transformation", print_alg(&a));
    for m in ms.iter().take(4) {
        let lm = move_to_lib(m);
        let n = steps(&p, &MAlg(vec![MNode::Move(m.clone())]), &mut HashMap::new());
        let (limit, bytes) = (PER_STEP * (n + 2), PER_STEP * (n + 2) * (value + names));
        shared_note(format!("evaluating the move {}, {} steps, made more than {} allocations or took more than {} bytes", print_move(m), n, limit, bytes).as_bytes());
        let _ = crate::alloc::counted(limit, bytes, || k.transformation_from_move(&lm).is_ok());
        let _ = crate::alloc::counted(limit + PER_STEP, bytes * 2, || pat.apply_move(&lm).is_ok());
    }
    // Refusing costs no more.
    if c.s.chance(1, 4) {
        let mut bad = a.clone();
        if c.s.chance(3, 4) {
            spoil_deepest(&mut c.s, &mut bad);
        } else {
            gp::spoil(&mut c.s, &p, &mut bad);
        }
        c.label("refused alg");
        c.label_if(depth(&bad) >= 12, "refused alg, nesting 12+");
        let lbad = to_lib(&bad);
        let n = n + 100;
        let (limit, bytes) = (PER_STEP * (n + 2), PER_STEP * (n + 2) * (value + names));
        shared_note(format!("refusing {:?}, {} steps or fewer, made more than {} allocations or took more than {} bytes", print_alg(&bad).chars().take(600).collect::<String>(), n, limit, bytes).as_bytes());
        let (r, _, _) = crate::alloc::counted(limit, bytes, || k.transformation_from_alg(&lbad).is_err());
        let (q, _, _) = crate::alloc::counted(limit, bytes, || pat.apply_alg(&lbad).is_err());
        ensure!(r && q, "{:?} is accepted on {}, which lacks one of its moves", print_alg(&bad), brief(&p));
    }
    // The same transformation applied again costs one value.
    let limit = 16;
    shared_note(b"composing, applying or inverting a transformation made more than 16 allocations");
    let _ = crate::alloc::counted(limit, 16 * (value + 64), || lp.apply_transformation(&t));
    let _ = crate::alloc::counted(limit, 16 * (value + 64), || t.invert());
    let _ = crate::alloc::counted(limit, 16 * (value + 64), || pat.apply_transformation(&t));
    Ok(())
}
/// An unknown move at the end or the beginning of the alg enclosed most deeply.
fn spoil_deepest(s: &mut Src, a: &mut MAlg) {
    let deepest = a.0.iter_mut().max_by_key(|n| depth(&MAlg(vec![(*n).clone()])));
    match deepest {
        Some(MNode::Group(x, _)) => return spoil_deepest(s, x),
        Some(MNode::Comm(x, y) | MNode::Conj(x, y)) => return spoil_deepest(s, if depth(x) > depth(y) { x } else { y }),
        _ => {}
    }
    let bad = mv("NOPE", 1);
    let at = if s.bool() { a.0.len() } else { 0 };
    a.0.insert(at, MNode::Move(bad));
}
/// Changes a move as deep inside as the first (or last) nested algs lead.
fn change_innermost(a: &mut MAlg, last: bool) {
    let at = |n: &&mut MNode| matches!(n, MNode::Group(..) | MNode::Comm(..) | MNode::Conj(..));
    let nested = if last { a.0.iter_mut().rev().find(at) } else { a.0.iter_mut().find(at) };
    match nested {
        Some(MNode::Group(x, _)) => change_innermost(x, last),
        Some(MNode::Comm(x, y)) | Some(MNode::Conj(x, y)) => {
            let deeper = if depth(x) == depth(y) { last } else { depth(y) > depth(x) };
            change_innermost(if deeper { y } else { x }, last)
        }
        _ => match if last { a.0.last_mut() } else { a.0.first_mut() } {
            Some(MNode::Move(m)) => m.amount = if m.amount == 5 { 6 } else { 5 },
            _ => a.0.push(MNode::Pause),
        },
    }
}
/// Inverting, printing and comparing cost by the size of the alg, also when parts are shared.
fn c27_notation(c: &mut Case) -> R {
    let p = built_in(false).0;
    let a = heavy_alg(&mut c.s, &p, false);
    let la = to_lib(&a);
    let n = count_nodes(&a) as u64;
    c.describe(|| format!("{} nodes: {:?}", n, print_alg(&a).chars().take(400).collect::<String>()));
    c.key(&a);
    c.nontrivial_if(depth(&a) >= 3);
    let d = depth(&a) as u64;
    shared_note(format!("inverting, cloning, comparing or printing an alg of {} nodes made more than {} allocations", n, 20 * (n + 4)).as_bytes());
    let (i, _, _) = crate::alloc::counted(20 * (n + 4), 4000 * (n + 4), || la.invert());
    let (_, _, _) = crate::alloc::counted(20 * (n + 4), 4000 * (n + 4), || i.invert() == la);
    let (_, _, _) = crate::alloc::counted(20 * (n + 4), 4000 * (n + 4), || la.clone() == la);
    // With algs that differ in the innermost part, or not at all.
    for change in [None, Some(false), Some(true)] {
        let mut b = a.clone();
        if let Some(last) = change {
            change_innermost(&mut b, last);
        }
        let (lb, equal) = (to_lib(&b), a == b);
        for (x, y) in [(&la, &lb), (&lb, &la)] {
            let (r, _, _) = crate::alloc::counted(20 * (n + 4), 4000 * (n + 4), || (x == y, x != y));
            ensure_eq!(r, (equal, !equal), "comparing {:?} with {:?}", print_alg(&a), print_alg(&b));
        }
    }
    // Printing may build the text of every level separately.
    let text = print_alg(&a).len() as u64;
    let (s, _, _) = crate::alloc::counted(40 * (n + 4), 60 * (text + 200) * (d + 4), || la.to_string());
    ensure_eq!(s.len() as u64, text, "length of the printed alg");
    Ok(())
}
/// Accepting a definition costs by its size, whatever its derived moves stand for.
fn c27_definition(c: &mut Case) -> R {
    let mut p = bare(vec![MOrbit { name: "A".into(), n: 3, m: 2 }], &mut c.s);
    let id = trans_data(&p.orbits, &identity(&p.orbits));
    p.moves = vec![(mv("R", 1), id)];
    let levels = 2 + c.s.usize(60);
    let style = c.s.usize(5);
    let name = |i: usize| -> MMove {
        if i == 0 {
            mv("R", 1)
        } else {
            MMove { prefix: MPrefix::Layer(i as u32), family: "X".into(), amount: 1 }
        }
    };
    let mut derived = vec![];
    for i in 1..=levels {
        let below = |s: &mut Src| {
            let j = if s.chance(3, 4) { i - 1 } else { s.usize(i) };
            MNode::Move(MMove { amount: *s.pick(&[1, -1, 2]), ..name(j) })
        };
        let s = &mut c.s;
        let a = match style {
            0 => MAlg(vec![below(s), below(s)]),
            1 => MAlg(vec![MNode::Comm(MAlg(vec![below(s)]), MAlg(vec![below(s)]))]),
            2 => MAlg(vec![MNode::Conj(MAlg(vec![below(s)]), MAlg(vec![below(s)]))]),
            3 => MAlg(vec![MNode::Group(MAlg(vec![below(s), below(s), below(s)]), 3)]),
            _ => {
                let k = 1 + s.usize(4);
                MAlg((0..k).map(|_| below(s)).collect())
            }
        };
        derived.push((name(i), a));
    }
    // Some are refused in the end.
    let spoilt = c.s.chance(1, 4);
    if spoilt {
        let at = if c.s.bool() { 0 } else { c.s.usize(derived.len()) };
        let m = if c.s.bool() { mv("NOPE", 1) } else { name(at + 1) };
        let a = &mut derived[at].1;
        a.0.push(MNode::Move(m));
    }
    c.label_if(spoilt, "refused definition");
    c.s.shuffle(&mut derived);
    let nodes: u64 = derived.iter().map(|(_, a)| count_nodes(a) as u64 + 2).sum();
    p.derived = Some(derived);
    c.describe(|| format!("{} levels of definitions, style {}: {}", levels, style, brief(&p).chars().take(500).collect::<String>()));
    c.key(&p);
    c.nontrivial_if(levels >= 10);
    c.label_if(levels >= 40, "40+ levels");
    let def = def_to_lib(&p);
    let limit = 40 * (nodes + 10);
    shared_note(format!("accepting a definition of {} levels with {} nodes made more than {} allocations", levels, nodes, limit).as_bytes());
    let (k, _, _) = crate::alloc::counted(limit, limit * 400 + 400_000, || KPuzzle::try_new(def));
    ensure!(k.is_ok() != spoilt, "the {} definition {} was {}", if spoilt { "ill-founded" } else { "well-founded" }, brief(&p), if spoilt { "accepted" } else { "refused" });
    Ok(())
}
pub fn c27() -> Prop {
    Prop {
        id: "C27",
        rule: "Algs with amounts up to 2^31-1, groups, commutators and conjugates nested up to 60 deep on either side, and long algs, on built-in and random puzzles with derived moves: allocations and bytes during evaluation stay within a fixed multiple of the steps (nodes once each, derived moves spelled out, log2 of amounts); likewise refusing algs with an unknown move deep inside, inverting, cloning, comparing (with algs equal but for something deep inside, too), printing, and accepting or refusing definitions whose derived moves double at every level. Non-trivial: nesting of three or more, an amount over 1000, or ten levels; distinct by alg or definition.",
        assumptions: &["Work is counted in allocations and allocated bytes; work without allocation is only bounded by the time limit of a case."],
        subs: vec![Sub::random("evaluation", 80_000, 1_600_000, c27_case), Sub::random("notation", 60_000, 1_000_000, c27_notation), Sub::random("definitions", 40_000, 600_000, c27_definition)],
    }
}

// ------------------------------------------------------------------------------------ C28

fn any_string(s: &mut Src) -> String {
    let mut t = match s.usize(3) {
        0 => g::comment(s),
        1 => g::any_text(s),
        _ => {
            let n = s.size(4, 20);
            (0..n).map(|_| char::from_u32(s.below(0x10ffff) as u32).unwrap_or('\u{2028}')).collect()
        }
    };
    if s.chance(1, 4) {
        let at = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect::<Vec<_>>();
        let i = *s.pick(&at);
        t.insert_str(i, *s.pick(&["\n", "\r\n", "\r", "\u{85}", "\u{2028}", "\u{b}", "\\n", "\u{0}"]));
    }
    t
}
fn c28_parts(c: &mut Case) -> R {
    let (a, b) = (g::layer(&mut c.s), g::layer(&mut c.s));
    let f = g::family(&mut c.s);
    let n = g::amount(&mut c.s);
    c.describe(|| format!("layers {} {}, family {}, amount {}", a, b, f, n));
    c.key((a, b, &f, n));
    c.nontrivial = true;
    let l = MoveLayer::new(a);
    ensure_eq!(l.layer, a, "MoveLayer::new({})", a);
    ensure!(l == MoveLayer::from(a) && l == MoveLayer { layer: a }, "layers {} differ", a);
    ensure_eq!(l.to_string(), a.to_string(), "printed layer");
    let r = MoveRange::new(a, b);
    ensure_eq!((r.outer_layer, r.inner_layer), (a, b), "MoveRange::new({}, {})", a, b);
    ensure!(r == MoveRange::from((a, b)), "ranges of {} {} differ", a, b);
    ensure_eq!(r.to_string(), format!("{}-{}", a, b), "printed range");
    let pl = [MovePrefix::from(l.clone()), MovePrefix::from(a), MovePrefix::Layer(l.clone())];
    let pr = [MovePrefix::from(r.clone()), MovePrefix::from((a, b)), MovePrefix::Range(r.clone())];
    let ol: Option<MovePrefix> = l.into();
    let or: Option<MovePrefix> = r.into();
    for (x, o) in [(&pl, &ol), (&pr, &or)] {
        ensure!(x[0] == x[2] && x[1] == x[2] && o.as_ref() == Some(&x[2]), "conversions to a prefix differ: {:?} {:?}", x, o);
    }
    ensure!(pl[0] != pr[0], "a layer equals a range");
    ensure_eq!(pl[1].to_string(), a.to_string(), "printed layer prefix");
    ensure_eq!(pr[1].to_string(), format!("{}-{}", a, b), "printed range prefix");
    for (prefix, mp) in [(None, MPrefix::None), (ol, MPrefix::Layer(a)), (or, MPrefix::Range(a, b))] {
        let m = MMove { prefix: mp, family: f.clone(), amount: n };
        let q = QuantumMove::new(f.as_str(), prefix.clone());
        ensure_eq!(quantum_from_lib(&q), (m.prefix.clone(), f.clone()), "QuantumMove::new");
        ensure!(q == QuantumMove::new(f.clone(), prefix), "QuantumMove::new depends on the kind of string");
        let text = print_prefix(&m.prefix) + &f;
        ensure_eq!(q.to_string(), text, "printed quantum move");
        ensure_eq!(QuantumMove::from_str(&text).ok(), Some(q.clone()), "the quantum move {:?} read", text);
        let x = Move { quantum: Arc::new(q), amount: n };
        ensure_eq!(x.to_string(), print_move(&m), "printed move");
        ensure_eq!(Move::from_str(&print_move(&m)).ok(), ref_parse_move(&print_move(&m)).map(|m| move_to_lib(&m)), "the move {:?} read", print_move(&m));
        ensure_eq!(move_from_lib(&x.invert()), invert_move(&m), "inverse of {}", print_move(&m));
        ensure_eq!(AlgNode::from(x.clone()), AlgNode::MoveNode(x), "a move as a node");
    }
    let t = any_string(&mut c.s);
    c.describe(|| format!("comment {:?}", t));
    let got = LineComment::try_new(&t);
    ensure_eq!(got.is_ok(), !t.contains('\n'), "whether {:?} can be a line comment", t);
    c.label(if got.is_ok() { "comment accepted" } else { "comment refused" });
    match got {
        Ok(x) => {
            ensure_eq!(x.text(), t.as_str(), "text of a comment");
            ensure_eq!(x.to_string(), format!("//{}", t), "printed comment");
            ensure_eq!(x.invert(), x, "inverse of a comment");
            ensure_eq!(AlgNode::from(x.clone()), AlgNode::LineCommentNode(x.clone()), "a comment as a node");
            let a = Alg::from_str(&x.to_string()).map_err(|e| format!("the comment {:?} is refused: {}", t, e))?;
            ensure_eq!(a, Alg { nodes: vec![x.into()] }, "the comment {:?} read", t);
        }
        Err(e) => ensure!(!e.is_empty(), "an empty error"),
    }
    ensure_eq!(LineComment::default().text().to_owned(), String::new(), "the default comment");
    ensure_eq!((Pause::default().to_string(), Newline::default().to_string(), Alg::default().to_string()), (".".to_owned(), "\n".to_owned(), String::new()), "printed defaults");
    ensure!(Pause::default().invert() == Pause {} && Newline::default().invert() == Newline {} && Alg::default() == Alg { nodes: vec![] }, "defaults");
    ensure!(AlgNode::from(Pause {}) == AlgNode::PauseNode(Pause {}) && AlgNode::from(Newline {}) == AlgNode::NewlineNode(Newline {}), "a pause or newline as a node");
    ensure_eq!(KPuzzleOrbitName::from(t.as_str()).0, t, "an orbit name");
    ensure_eq!(KPuzzleOrbitName::from(t.as_str()).to_string(), t, "a printed orbit name");
    Ok(())
}
fn c28_nodes(c: &mut Case) -> R {
    let a = g::built_alg(&mut c.s);
    c.describe(|| format!("nodes of {:?}", print_alg(&a)));
    c.key(&a);
    c.nontrivial_if(count_nodes(&a) >= 3);
    node_walk(&a)?;
    // Debug output of anything is produced, plain and pretty.
    let la = to_lib(&a);
    ensure!(!format!("{:?}", la).is_empty() && !format!("{:#?}", la).is_empty(), "empty debug output");
    Ok(())
}
fn node_walk(a: &MAlg) -> R {
    for n in &a.0 {
        let l = node_to_lib(n);
        let text = print_node(n);
        ensure_eq!(l.to_string(), text, "printed node");
        ensure_eq!(node_from_lib(&l.invert()), invert_node(n), "inverse of the node {:?}", text);
        ensure_eq!(node_from_lib(&l), *n, "the node {:?} afterwards", text);
        let (again, shown, inv) = match l.clone() {
            AlgNode::MoveNode(x) => (AlgNode::from(x.clone()), x.to_string(), AlgNode::from(x.invert())),
            AlgNode::PauseNode(x) => (AlgNode::from(x.clone()), x.to_string(), AlgNode::from(x.invert())),
            AlgNode::NewlineNode(x) => (AlgNode::from(x.clone()), x.to_string(), AlgNode::from(x.invert())),
            AlgNode::LineCommentNode(x) => (AlgNode::from(x.clone()), x.to_string(), AlgNode::from(x.invert())),
            AlgNode::GroupingNode(x) => (AlgNode::from(x.clone()), x.to_string(), AlgNode::from(x.invert())),
            AlgNode::CommutatorNode(x) => (AlgNode::from(x.clone()), x.to_string(), AlgNode::from(x.invert())),
            AlgNode::ConjugateNode(x) => (AlgNode::from(x.clone()), x.to_string(), AlgNode::from(x.invert())),
        };
        ensure_eq!(again, l, "the node {:?} wrapped again", text);
        ensure_eq!(shown, text, "the content of a node printed");
        ensure_eq!(node_from_lib(&inv), invert_node(n), "the content of the node {:?} inverted", text);
        match n {
            MNode::Group(x, _) => node_walk(x)?,
            MNode::Comm(x, y) | MNode::Conj(x, y) => {
                node_walk(x)?;
                node_walk(y)?
            }
            _ => {}
        }
    }
    Ok(())
}
/// Edits the library value through its public fields as `nudge` would; both stay in step.
fn edit_in_place(s: &mut Src, m: &mut MAlg, l: &mut Alg) -> &'static str {
    if m.0.is_empty() || s.chance(1, 6) {
        let n = MNode::Move(g::any_move(s));
        let at = s.usize(m.0.len() + 1);
        l.nodes.insert(at, node_to_lib(&n));
        m.0.insert(at, n);
        return "insert a node";
    }
    let i = s.usize(m.0.len());
    match (s.usize(8), &mut m.0[i], &mut l.nodes[i]) {
        (0, ..) => {
            m.0.remove(i);
            l.nodes.remove(i);
            "remove a node"
        }
        (1, ..) => {
            let j = s.usize(m.0.len());
            m.0.swap(i, j);
            l.nodes.swap(i, j);
            "swap two nodes"
        }
        (2 | 3, MNode::Move(x), AlgNode::MoveNode(y)) => {
            x.amount = g::amount(s);
            y.amount = x.amount;
            "amount of a move"
        }
        (_, MNode::Move(x), AlgNode::MoveNode(y)) => {
            let q = Arc::make_mut(&mut y.quantum);
            if s.bool() {
                x.family = g::family(s);
                q.family = x.family.clone();
                "family of a move"
            } else {
                x.prefix = g::prefix(s);
                q.prefix = quantum_to_lib(x).prefix;
                "prefix of a move"
            }
        }
        (2 | 3, MNode::Group(_, k), AlgNode::GroupingNode(y)) => {
            *k = g::amount(s);
            y.amount = *k;
            "amount of a group"
        }
        (_, MNode::Group(x, _), AlgNode::GroupingNode(y)) => edit_in_place(s, x, Arc::make_mut(&mut y.alg)),
        (2, MNode::Comm(x, y), AlgNode::CommutatorNode(z)) => {
            std::mem::swap(x, y);
            std::mem::swap(&mut z.a, &mut z.b);
            "swap the halves"
        }
        (k, MNode::Comm(x, y), AlgNode::CommutatorNode(z)) => {
            if k % 2 == 0 {
                edit_in_place(s, x, Arc::make_mut(&mut z.a))
            } else {
                edit_in_place(s, y, Arc::make_mut(&mut z.b))
            }
        }
        (k, MNode::Conj(x, y), AlgNode::ConjugateNode(z)) => {
            if k % 2 == 0 {
                edit_in_place(s, x, Arc::make_mut(&mut z.a))
            } else {
                edit_in_place(s, y, Arc::make_mut(&mut z.b))
            }
        }
        (_, x, y) => {
            *x = MNode::Pause;
            *y = Pause {}.into();
            "another node"
        }
    }
}
fn c28_edits(c: &mut Case) -> R {
    let mut m = g::built_alg(&mut c.s);
    let mut l = to_lib(&m);
    c.key(&m);
    let mut live: Vec<(MAlg, Alg)> = vec![];
    let n = 1 + c.s.size(4, 12);
    for step in 0..n {
        if c.s.bool() {
            // Used before the edit: nothing may be remembered.
            let _ = (l.to_string(), l.invert(), l == l.clone());
        }
        if c.s.chance(1, 3) {
            live.push((m.clone(), l.clone()));
        }
        let what = edit_in_place(&mut c.s, &mut m, &mut l);
        c.label(what);
        c.key(&m);
        c.describe(|| format!("{}: {:?}", what, print_alg(&m)));
        ensure_eq!(from_lib(&l), m, "the alg after an edit ({})", what);
        ensure_eq!(l.to_string(), print_alg(&m), "the alg printed after edit {} ({})", step, what);
        ensure_eq!(from_lib(&l.invert()), invert(&m), "the inverse of {:?} after edit {} ({})", print_alg(&m), step, what);
        ensure!(l == to_lib(&m), "the edited alg {:?} is not equal to one built anew", print_alg(&m));
        ensure_eq!(serde_json::to_value(&l).ok(), Some(serde_json::Value::String(print_alg(&m))), "the JSON after edit {}", step);
        for (m, l) in &live {
            ensure_eq!(l.to_string(), print_alg(m), "an earlier clone printed after a later edit ({})", what);
            ensure!(*l == to_lib(m), "an earlier clone of {:?} changed by an edit ({})", print_alg(m), what);
        }
    }
    c.nontrivial_if(n >= 2);
    c.evals = n as u64;
    Ok(())
}
/// Data values: equality entry by entry, and debug output that lists the entries.
fn c28_data(c: &mut Case) -> R {
    let max = *c.s.pick(&[4u8, 12, 12, 255]);
    let os = gp::orbits(&mut c.s, max);
    let pd = pattern_data(&os, &gp::pattern(&mut c.s, &os));
    let td = trans_data(&os, &gp::trans(&mut c.s, &os));
    c.key((&pd, &td));
    c.nontrivial_if(os.iter().any(|o| o.n >= 2));
    c.describe(|| format!("data {:?} {:?}", pd, td));
    let list = |v: &[u8]| format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
    let (lp, lt) = (pdata_to_lib(&pd), tdata_to_lib(&td));
    for (name, x) in &pd {
        let key = oname(name);
        let l = &lp[&key];
        for shown in [format!("{:?}", l), format!("{:#?}", l)] {
            for v in [&x.pieces, &x.ori].into_iter().chain(&x.mods) {
                ensure!(shown.contains(&list(v)), "{} does not show {}", shown, list(v));
            }
        }
        let mut y = x.clone();
        let place = c.s.usize(4);
        {
            let v = match place {
                0 => &mut y.pieces,
                1 => &mut y.ori,
                2 => y.mods.get_or_insert_with(Vec::new),
                _ => {
                    y.mods = if y.mods.is_some() { None } else { Some(vec![]) };
                    y.mods.get_or_insert_with(Vec::new)
                }
            };
            if c.s.bool() && !v.is_empty() {
                let i = c.s.usize(v.len());
                v[i] ^= 1 << c.s.usize(8);
            } else if c.s.bool() && !v.is_empty() {
                v.pop();
            } else {
                v.push(0);
            }
        }
        if place == 3 && x.mods.is_some() {
            y = x.clone();
            y.mods = None;
        }
        let q = KPatternOrbitData { pieces: y.pieces.clone(), orientation: y.ori.clone(), orientation_mod: y.mods.clone() };
        both(l, &q, *x == y, &|| format!("comparing {:?} and {:?}", x, y))?;
        both(l, &l.clone(), true, &|| format!("comparing {:?} with its clone", x))?;
    }
    for (name, x) in &td {
        let key = oname(name);
        let l = &lt[&key];
        for shown in [format!("{:?}", l), format!("{:#?}", l)] {
            for v in [&x.perm, &x.delta] {
                ensure!(shown.contains(&list(v)), "{} does not show {}", shown, list(v));
            }
        }
        let mut y = x.clone();
        let v = if c.s.bool() { &mut y.perm } else { &mut y.delta };
        if v.is_empty() || c.s.chance(1, 4) {
            v.push(0);
        } else {
            let i = c.s.usize(v.len());
            v[i] ^= 1 << c.s.usize(8);
        }
        let q = KTransformationOrbitData { permutation: y.perm.clone(), orientation_delta: y.delta.clone() };
        both(l, &q, *x == y, &|| format!("comparing {:?} and {:?}", x, y))?;
    }
    // Values on a puzzle show their puzzle and their data.
    let p = bare(os, &mut c.s);
    let k = lib_puzzle(&p)?;
    let pat = KPattern::try_from_data(&k, &lp).map_err(|e| format!("valid data refused: {}", e))?;
    let tr = KTransformation::try_from_data(&k, &lt).map_err(|e| format!("valid data refused: {}", e))?;
    for (shown, what) in [(format!("{:?}", pat), "pattern"), (format!("{:#?}", pat), "pattern"), (format!("{:?}", tr), "transformation"), (format!("{:#?}", tr), "transformation"), (format!("{:?}", k), "puzzle")] {
        ensure!(shown.contains(&p.name), "the debug output {} of a {} does not name its puzzle", shown, what);
        if what == "pattern" {
            for x in pd.values() {
                ensure!(shown.contains(&list(&x.pieces)) && shown.contains(&list(&x.ori)), "the debug output {} of a pattern does not show its data", shown);
            }
        }
        if what == "transformation" {
            for x in td.values() {
                ensure!(shown.contains(&list(&x.perm)) && shown.contains(&list(&x.delta)), "the debug output {} of a transformation does not show its data", shown);
            }
        }
    }
    Ok(())
}
pub fn c28() -> Prop {
    Prop {
        id: "C28",
        rule: "Layers, ranges, prefixes, families, amounts and comment texts (any characters, with and without line ends) through every constructor and conversion; every node of random algs wrapped, printed and inverted on its own; algs edited in place through their public fields, before and after being printed, inverted, compared and cloned; data values with one entry changed, compared and shown. Non-trivial: three or more nodes, two or more edits, an orbit of two or more pieces; distinct by value.",
        assumptions: &["Families are ASCII letters and underscores, and amounts are within the range a text can express."],
        subs: vec![
            Sub::random("parts", 60_000, 1_000_000, c28_parts),
            Sub::random("nodes", 60_000, 1_000_000, c28_nodes),
            Sub::random("edits", 60_000, 1_000_000, c28_edits),
            Sub::random("data", 40_000, 800_000, c28_data),
        ],
    }
}
