//! C01, C02, C03, C06: alg notation.
use crate::engine::*;
use crate::gen::alg as g;
use crate::model::alg::*;
use crate::{ensure, ensure_eq};
use cubing::alg::{Alg, AlgBuilder, AlgNode, Move, QuantumMove};
use std::str::FromStr;

// ------------------------------------------------------------------------------------ C01

fn check_alg_text(text: &str) -> Result<Option<MAlg>, String> {
    let want = ref_parse_alg(text);
    let got = Alg::from_str(text).ok();
    let got2 = Alg::try_from(text).ok();
    let got3 = text.parse::<Alg>().ok();
    ensure_eq!(got.as_ref().map(from_lib), want, "parsing {:?} as an alg", text);
    ensure_eq!(got2.as_ref().map(from_lib), want, "Alg::try_from({:?})", text);
    ensure_eq!(got3.as_ref().map(from_lib), want, "{:?}.parse::<Alg>()", text);
    Ok(want)
}
fn check_move_text(text: &str) -> Result<Option<MMove>, String> {
    let want = ref_parse_move(text);
    ensure_eq!(Move::from_str(text).ok().as_ref().map(move_from_lib), want, "parsing {:?} as a move", text);
    ensure_eq!(Move::try_from(text).ok().as_ref().map(move_from_lib), want, "Move::try_from({:?})", text);
    let wq = ref_parse_quantum(text);
    ensure_eq!(QuantumMove::from_str(text).ok().as_ref().map(quantum_from_lib), wq, "parsing {:?} as a quantum move", text);
    ensure_eq!(QuantumMove::try_from(text).ok().as_ref().map(quantum_from_lib), wq, "QuantumMove::try_from({:?})", text);
    Ok(want)
}

fn c01_grammar(c: &mut Case) -> R {
    let a = g::text_alg(&mut c.s);
    let t = g::spell_alg(&mut c.s, &a);
    c01_spelled(c, a, t)
}
fn c01_long(c: &mut Case) -> R {
    let (a, t) = g::long_text_alg(&mut c.s);
    c.label_if(count_nodes(&a) >= 5_000, "5000+ nodes");
    c01_spelled(c, a, t)
}
fn c01_spelled(c: &mut Case, a: MAlg, t: String) -> R {
    c.describe(|| format!("text {:?}", t.chars().take(2_000).collect::<String>()));
    c.key(&t);
    c.nontrivial_if(count_nodes(&a) >= 2);
    c.label_if(depth(&a) >= 3, "nesting 3+");
    c.label_if(count_nodes(&a) >= 30, "30+ nodes");
    c.label_if(t.contains("//"), "comment");
    c.label_if(t.contains(", -") || t.contains("(-"), "negative tuple");
    label_moves(c, &a);
    let got = Alg::from_str(&t);
    match &got {
        Err(e) => return Err(format!("valid text {:?} refused: {}", t, e)),
        Ok(x) => ensure_eq!(from_lib(x), a, "structure of {:?}", t),
    }
    check_alg_text(&t)?;
    Ok(())
}
fn label_moves(c: &mut Case, a: &MAlg) {
    let mut ms = vec![];
    moves_in(a, &mut ms);
    c.label_if(ms.iter().any(|m| matches!(m.prefix, MPrefix::Range(..))), "range prefix");
    c.label_if(ms.iter().any(|m| m.amount.unsigned_abs() > 1 << 20), "amount over 2^20");
    c.label_if(ms.iter().any(|m| m.family.ends_with(PLUS)), "1+ suffix");
    c.label_if(ms.iter().any(|m| m.family.ends_with(PLUSPLUS)), "++ suffix");
}
fn c01_text(c: &mut Case) -> R {
    let t = g::any_text(&mut c.s);
    c.describe(|| format!("text {:?}", t));
    c.key(&t);
    c.nontrivial_if(t.len() >= 2);
    let a = check_alg_text(&t)?;
    c.label(if a.is_some() { "accepted as alg" } else { "refused as alg" });
    let m = check_move_text(&t)?;
    c.label_if(m.is_some(), "accepted as move");
    Ok(())
}
fn c01_move(c: &mut Case) -> R {
    let m = g::any_move(&mut c.s);
    let t = g::spell_move(&mut c.s, &m);
    c.describe(|| format!("move text {:?}", t));
    c.key(&t);
    c.nontrivial_if(m.prefix != MPrefix::None || m.amount != 1 || m.family.len() > 1);
    let got = check_move_text(&t)?;
    ensure_eq!(got, Some(m.clone()), "model and generator disagree on {:?} (harness)", t);
    ensure_eq!(check_alg_text(&t)?, Some(MAlg(vec![MNode::Move(m.clone())])), "one-move alg {:?}", t);
    let q = g::spell_prefix(&mut c.s, &m.prefix) + &m.family;
    let wq = Some((m.prefix.clone(), m.family.clone()));
    ensure_eq!(QuantumMove::from_str(&q).ok().as_ref().map(quantum_from_lib), wq, "quantum move {:?}", q);
    let near = g::mutate(&mut c.s, &t);
    check_move_text(&near)?;
    Ok(())
}
const SYMBOLS: &[u8; 16] = b"R2'0() [],:/+-.\n";
const BLOCK: u64 = 256;
/// All strings over SYMBOLS, in blocks of 256: index i stands for i in base 16 with the length.
fn c01_small(c: &mut Case) -> R {
    let blk = enum_index(c);
    let mut n = 0;
    for j in 0..BLOCK {
        let mut i = blk * BLOCK + j;
        let mut len = 0;
        let mut size = 1u64;
        while i >= size {
            i -= size;
            size *= 16;
            len += 1;
        }
        let mut t = String::with_capacity(len);
        for _ in 0..len {
            t.push(SYMBOLS[(i % 16) as usize] as char);
            i /= 16;
        }
        if let Err(e) = check_alg_text(&t).and_then(|_| check_move_text(&t)) {
            return Err(e);
        }
        n += 1;
        if j == 77 {
            c.key(&t);
            c.describe(|| format!("256 strings including {:?}", t));
        }
    }
    c.evals = n;
    c.nontrivial = true;
    Ok(())
}
/// Numbers around every boundary, in every place a number can stand.
fn c01_numbers(c: &mut Case) -> R {
    let v: u128 = match c.s.usize(4) {
        0 => (1u128 << c.s.usize(68)) + c.s.below(3) as u128 - if c.s.bool() { 1 } else { 0 },
        1 => 10u128.pow(c.s.usize(24) as u32) - c.s.below(2) as u128,
        2 => *c.s.pick(&[2147483646u128, 2147483647, 2147483648, 2147483649, 4294967294, 4294967295, 4294967296, 4294967297]),
        _ => g::dict_int(&mut c.s, i64::MAX) as u128,
    };
    let z = "0".repeat(if c.s.chance(1, 4) { c.s.usize(40) } else { 0 });
    let n = format!("{}{}", z, v);
    let forms = [
        format!("R{}", n),
        format!("R{}'", n),
        format!("{}R", n),
        format!("{}-3R", n),
        format!("2-{}R", n),
        format!("R{}+", n),
        format!("R{}-", n),
        format!("(R U){}", n),
        format!("(R U){}'", n),
        format!("[R, U]{}", n),
        format!("[R: U]{}'", n),
        format!("({}, 1)", n),
        format!("(-{}, 1)", n),
        format!("(1, {})", n),
        format!("(1, -{})", n),
        format!("{}-{}R{}", n, n, n),
    ];
    c.describe(|| format!("number {} in every place", n));
    c.key(&n);
    c.nontrivial = true;
    for t in &forms {
        let r = check_alg_text(t)?;
        check_move_text(t)?;
        c.label_if(r.is_none(), "some form refused");
    }
    c.evals = forms.len() as u64;
    Ok(())
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "Random syntax trees in random spellings (extra spaces, leading zeros, explicit amounts), mutated and arbitrary text, numbers at every boundary, and all strings of up to 5 (quick) or 6 (thorough) symbols over a 16-symbol alphabet, and algs of 100 to 65 538 nodes, are parsed as alg, move and quantum move and compared with an independent recursive-descent parser. Non-trivial: at least two nodes or characters, or a move with a prefix, an amount or a longer family; distinct by text.",
        assumptions: &["The notation is as described by the repository's own grammar and tests and cubing.js; the reference parser in harness/src/model/alg.rs states it."],
        subs: vec![
            Sub::enumerate("all small strings", 1_118_481 / 256 + 1, 17_895_697 / 256 + 1, c01_small),
            Sub::random("grammar", 160_000, 3_000_000, c01_grammar),
            Sub::random("long", 1_500, 30_000, c01_long),
            Sub::random("any text", 200_000, 5_000_000, c01_text),
            Sub::random("moves", 60_000, 1_000_000, c01_move),
            Sub::random("numbers", 20_000, 200_000, c01_numbers),
        ],
    }
}

// ------------------------------------------------------------------------------------ C02

fn check_print(a: &MAlg, l: &Alg) -> R {
    let text = l.to_string();
    ensure_eq!(text, print_alg(a), "printed form of {:?}", a);
    let back = match Alg::from_str(&text) {
        Ok(b) => b,
        Err(e) => return Err(format!("printed text {:?} of {:?} does not parse: {}", text, a, e)),
    };
    let norm = normalise(a, false);
    ensure_eq!(from_lib(&back), norm, "alg read back from {:?}", text);
    if norm == *a {
        ensure!(back == *l, "the alg read back from {:?} is not equal to the original", text);
    }
    if !has_redundant_group(a) {
        ensure_eq!(back.to_string(), text, "text printed after reading back");
    }
    Ok(())
}
/// A sink that takes so many bytes and refuses the piece that exceeds them.
struct Sink {
    left: usize,
    got: String,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}
fn check_sink(limit: usize, text: &str, v: &impl std::fmt::Display) -> R {
    use std::fmt::Write;
    let mut w = Sink { left: limit, got: String::new() };
    let ok = write!(w, "{}", v).is_ok();
    if limit >= text.len() {
        ensure!(ok, "printing {:?} into a sink with room for {} bytes fails", text, limit);
        ensure_eq!(w.got, text, "text printed into a sink");
    } else {
        ensure!(!ok, "printing {:?} into a sink that takes {} bytes reports success, {:?} arrived", text, limit, w.got);
        ensure!(text.starts_with(&w.got), "printing {:?} into a sink that takes {} bytes left {:?}", text, limit, w.got);
    }
    Ok(())
}
fn c02_case(c: &mut Case, a: MAlg) -> R {
    c.describe(|| format!("alg {:?}", print_alg(&a).chars().take(2_000).collect::<String>()));
    c.key(&a);
    c.nontrivial_if(count_nodes(&a) >= 2);
    label_moves(c, &a);
    c.label_if(has_redundant_group(&a), "redundant group");
    c.label_if(normalise(&a, false) != a, "changed by normalisation");
    check_print(&a, &to_lib(&a))?;
    let inv = invert(&a);
    check_print(&inv, &to_lib(&inv))?;
    check_print(&inv, &to_lib(&a).invert())?;
    for n in &a.0 {
        ensure_eq!(node_to_lib(n).to_string(), print_node(n), "printed form of a node");
    }
    // Sinks that refuse part of the text.
    let text = print_alg(&a);
    for _ in 0..2 {
        let limit = c.s.usize(text.len() + 2);
        check_sink(limit, &text, &to_lib(&a))?;
        if let Some(n) = a.0.get(c.s.usize(a.0.len().max(1))) {
            check_sink(limit, &print_node(n), &node_to_lib(n))?;
        }
    }
    Ok(())
}
fn c02_text(c: &mut Case) -> R {
    let a = g::text_alg(&mut c.s);
    let t = g::spell_alg(&mut c.s, &a);
    let l = match Alg::from_str(&t) {
        Ok(l) => l,
        Err(e) => return Err(format!("valid text {:?} refused: {}", t, e)),
    };
    // The alg as parsed may differ from the generated one only if parsing is wrong (C01).
    check_print(&a, &l)?;
    c02_case(c, a)
}
fn c02_built(c: &mut Case) -> R {
    let a = g::built_alg(&mut c.s);
    c02_case(c, a)
}
fn c02_long(c: &mut Case) -> R {
    let (a, t) = g::long_text_alg(&mut c.s);
    if let Ok(l) = Alg::from_str(&t) {
        check_print(&a, &l)?;
    }
    c02_case(c, a)
}
fn c02_move(c: &mut Case) -> R {
    let m = g::any_move(&mut c.s);
    c.describe(|| format!("move {:?}", m));
    c.key(&m);
    c.nontrivial_if(m.prefix != MPrefix::None || m.amount != 1);
    c.label_if(m.prefix != MPrefix::None, "prefix");
    c.label_if(m.family.contains("_"), "underscore family");
    for m in [m.clone(), invert_move(&m)] {
        let l = move_to_lib(&m);
        let t = l.to_string();
        ensure_eq!(t, print_move(&m), "printed form of {:?}", m);
        match Move::from_str(&t) {
            Ok(b) => ensure!(b == l, "{:?} prints as {:?}, which reads as {:?}", l, t, b),
            Err(e) => return Err(format!("{:?} prints as {:?}, which does not parse: {}", m, t, e)),
        }
        let limit = c.s.usize(t.len() + 1);
        check_sink(limit, &t, &l)?;
        let q = quantum_to_lib(&m);
        let t = q.to_string();
        check_sink(limit, &t, &q)?;
        ensure_eq!(t, print_prefix(&m.prefix) + &m.family, "printed form of the quantum move of {:?}", m);
        match QuantumMove::from_str(&t) {
            Ok(b) => ensure!(b == q, "quantum move {:?} prints as {:?}, which reads as {:?}", q, t, b),
            Err(e) => return Err(format!("quantum move {:?} prints as {:?}, which does not parse: {}", q, t, e)),
        }
        if let Some(p) = &q.prefix {
            ensure_eq!(p.to_string(), print_prefix(&m.prefix), "printed prefix");
        }
    }
    Ok(())
}
/// Inputs that failed before repairs, and the neighbours of the special notations.
fn c02_fixed(c: &mut Case) -> R {
    let fams = ["R", "_SLASH_", "U_SQ_", "D_SQ_", "_PLUS_", "_PLUSPLUS_", "R_PLUS_", "R_PLUSPLUS_", "R_PLUS__PLUSPLUS_", "R_PLUSPLUS__PLUS_", "__PLUS_", "_", "X_SLASH_", "_SLASH__PLUS_"];
    let pres = [MPrefix::None, MPrefix::Layer(0), MPrefix::Layer(3), MPrefix::Range(1, 1), MPrefix::Range(2, 4), MPrefix::Layer(u32::MAX), MPrefix::Range(0, u32::MAX)];
    let amounts = [1, -1, 0, 2, -2, 3, -3, 10, -10, i32::MAX, -i32::MAX];
    let i = enum_index(c) as usize;
    let f = fams[i % fams.len()];
    let p = &pres[i / fams.len() % pres.len()];
    let a = amounts[i / fams.len() / pres.len() % amounts.len()];
    let m = MMove { prefix: p.clone(), family: f.to_owned(), amount: a };
    c.describe(|| format!("move {:?} alone and in every context", m));
    c.key(&m);
    c.nontrivial = true;
    let l = move_to_lib(&m);
    match Move::from_str(&l.to_string()) {
        Ok(b) => ensure!(b == l, "{:?} prints as {:?}, which reads as {:?}", m, l.to_string(), b),
        Err(e) => return Err(format!("{:?} prints as {:?}, which does not parse: {}", m, l.to_string(), e)),
    }
    let x = MAlg(vec![MNode::Move(m.clone())]);
    let two = MAlg(vec![MNode::Move(m.clone()), MNode::Move(mv("D_SQ_", 2))]);
    let cm = MAlg(vec![MNode::Move(m.clone()), MNode::Comment(" c".into())]);
    let e = MAlg(vec![]);
    let contexts = vec![
        vec![MNode::Group(x.clone(), a)],
        vec![MNode::Group(two.clone(), 1)],
        vec![MNode::Group(two.clone(), -1)],
        vec![MNode::Group(two.clone(), 2)],
        vec![MNode::Comm(x.clone(), two.clone())],
        vec![MNode::Conj(two.clone(), x.clone())],
        vec![MNode::Comm(e.clone(), e.clone())],
        vec![MNode::Group(e.clone(), a)],
        vec![MNode::Comm(cm.clone(), cm.clone())],
        vec![MNode::Conj(cm.clone(), cm.clone())],
        vec![MNode::Group(cm.clone(), a)],
        vec![MNode::Comment("x".into()), MNode::Newline, MNode::Newline, MNode::Move(m.clone()), MNode::Newline],
        vec![MNode::Group(MAlg(vec![MNode::Comm(x.clone(), x.clone())]), a)],
        vec![MNode::Group(MAlg(vec![MNode::Conj(x.clone(), x.clone()), MNode::Pause]), a)],
        vec![MNode::Group(MAlg(vec![MNode::Group(MAlg(vec![MNode::Conj(x.clone(), x.clone())]), 2)]), a)],
    ];
    for nodes in contexts {
        let alg = MAlg(nodes);
        check_print(&alg, &to_lib(&alg))?;
        check_print(&invert(&alg), &to_lib(&alg).invert())?;
    }
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "Random algs (parsed from random spellings, assembled from nodes, the inverses of both, and some of up to 65 538 nodes) are printed; the text is compared with an independent canonical printer, parsed back, compared structurally with the (normalised) original, and printed again. Single moves and quantum moves likewise, and a complete grid of special families, prefixes and amounts in 15 contexts. Non-trivial: at least two nodes, or a move with a prefix or amount; distinct by structure.",
        assumptions: &["Amounts are within ±(2^31-1), what text can express; nodes are ones text can express."],
        subs: vec![
            Sub::enumerate("special moves in every context", 14 * 7 * 11, 14 * 7 * 11, c02_fixed),
            Sub::random("parsed algs", 150_000, 3_000_000, c02_text),
            Sub::random("assembled algs", 150_000, 3_000_000, c02_built),
            Sub::random("moves", 100_000, 2_000_000, c02_move),
            Sub::random("long", 1_000, 20_000, c02_long),
        ],
    }
}

// ------------------------------------------------------------------------------------ C03

fn c03_alg(c: &mut Case) -> R {
    let a = if c.s.bool() { g::text_alg(&mut c.s) } else { g::built_alg(&mut c.s) };
    c03_on(c, a)
}
fn c03_long(c: &mut Case) -> R {
    let (a, _) = g::long_text_alg(&mut c.s);
    c03_on(c, a)
}
fn c03_on(c: &mut Case, a: MAlg) -> R {
    c.describe(|| format!("alg {:?}", print_alg(&a).chars().take(2_000).collect::<String>()));
    c.key(&a);
    c.nontrivial_if(count_nodes(&a) >= 2);
    c.label_if(depth(&a) >= 2, "nesting 2+");
    c.label_if(a.0.iter().any(|n| as_tuple(n).is_some()), "tuple");
    c.label_if(resolve_negated_tuples(&a) != a, "negated tuple");
    let l = to_lib(&a);
    let inv = l.invert();
    ensure_eq!(from_lib(&l), a, "the original after inverting it");
    ensure_eq!(from_lib(&inv), invert(&a), "inverse of {:?}", print_alg(&a));
    let twice = inv.invert();
    ensure_eq!(from_lib(&inv), invert(&a), "the inverse after inverting it");
    ensure_eq!(resolve_negated_tuples(&from_lib(&twice)), resolve_negated_tuples(&a), "inverting {:?} twice", print_alg(&a));
    if resolve_negated_tuples(&a) == a {
        ensure!(twice == l, "inverting {:?} twice gives an unequal alg", print_alg(&a));
    }
    ensure!(inv == to_lib(&invert(&a)), "the inverse of {:?} is not equal to the expected alg", print_alg(&a));
    for (n, ln) in a.0.iter().zip(&l.nodes) {
        ensure_eq!(node_from_lib(&ln.invert()), invert_node(n), "inverse of a node");
        if let (MNode::Move(m), AlgNode::MoveNode(lm)) = (n, ln) {
            ensure_eq!(move_from_lib(&lm.invert()), invert_move(m), "inverse of a move");
            ensure!(lm.invert().invert() == *lm, "inverting {:?} twice", m);
        }
    }
    // An alg that was parsed inverts the same way.
    if let Ok(pl) = Alg::from_str(&l.to_string()) {
        let pa = from_lib(&pl);
        ensure_eq!(from_lib(&pl.invert()), invert(&pa), "inverse of the parsed {:?}", l.to_string());
    }
    Ok(())
}
fn c03_move(c: &mut Case) -> R {
    let m = g::any_move(&mut c.s);
    c.describe(|| format!("move {:?}", m));
    c.key(&m);
    c.nontrivial_if(m.amount != 1 || m.prefix != MPrefix::None);
    let l = move_to_lib(&m);
    ensure_eq!(move_from_lib(&l.invert()), invert_move(&m), "inverse of {:?}", m);
    ensure!(l.invert().invert() == l, "inverting {:?} twice", m);
    ensure_eq!(move_from_lib(&l), m, "the original move");
    Ok(())
}
pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "Random algs (parsed and assembled, some of up to 65 538 nodes) and moves are inverted once and twice and compared with an independent inverter; the original is re-read afterwards. Non-trivial: at least two nodes, or a move with an amount or prefix; distinct by structure.",
        assumptions: &["Amounts are within ±(2^31-1), what text can express."],
        subs: vec![Sub::random("algs", 250_000, 5_000_000, c03_alg), Sub::random("moves", 100_000, 2_000_000, c03_move), Sub::random("long", 1_000, 20_000, c03_long)],
    }
}

// ------------------------------------------------------------------------------------ C06

fn c06_case(c: &mut Case) -> R {
    enum F {
        A(MAlg),
        N(MNode),
    }
    let k = match c.s.weighted(&[8, 3, 1]) {
        0 => c.s.size(4, 12),
        1 => c.s.size(12, 60),
        _ => c.s.size(60, 1200),
    };
    let mut frags: Vec<F> = vec![];
    let big = k > 60;
    for _ in 0..k {
        let f = match c.s.weighted(&[4, 4, 2, 2]) {
            0 => {
                let m = g::any_move(&mut c.s);
                F::N(MNode::Move(m))
            }
            1 => F::A(if big { MAlg(vec![MNode::Move(g::any_move(&mut c.s))]) } else { g::built_alg(&mut c.s) }),
            2 => {
                let mut a = g::text_alg(&mut c.s);
                if a.0.is_empty() {
                    F::A(a)
                } else {
                    let i = c.s.usize(a.0.len());
                    F::N(a.0.swap_remove(i))
                }
            }
            _ => match frags.last() {
                // repetition of the previous fragment, or its inverse
                Some(F::A(a)) => F::A(if c.s.bool() { invert(a) } else { a.clone() }),
                Some(F::N(n)) => F::N(if c.s.bool() { invert_node(n) } else { n.clone() }),
                None => F::A(MAlg(vec![])),
            },
        };
        frags.push(f);
    }
    let want: Vec<MNode> = frags
        .iter()
        .flat_map(|f| match f {
            F::A(a) => a.0.clone(),
            F::N(n) => vec![n.clone()],
        })
        .collect();
    let want = MAlg(want);
    let initial = c.s.usize(4);
    c.describe(|| format!("{} fragments (form {}), result {:?}", frags.len(), initial, print_alg(&want)));
    c.key((&want, initial, frags.len()));
    c.nontrivial_if(frags.len() >= 2);
    c.label_if(frags.iter().any(|f| matches!(f, F::A(a) if a.0.is_empty())), "empty alg fragment");
    c.label_if(frags.len() > 60, "60+ fragments");
    enum L {
        A(Alg),
        N(AlgNode),
    }
    let mut libs: Vec<L> = vec![];
    for (i, f) in frags.iter().enumerate() {
        // A repeated fragment is often the very same one, or a clone of it.
        let again = match (f, frags[..i].last(), libs.last()) {
            (F::A(a), Some(F::A(b)), Some(L::A(x))) if a == b && i % 2 == initial % 2 => Some(L::A(x.clone())),
            (F::N(a), Some(F::N(b)), Some(L::N(x))) if a == b && i % 2 == initial % 2 => Some(L::N(x.clone())),
            _ => None,
        };
        libs.push(again.unwrap_or_else(|| match f {
            F::A(a) => L::A(to_lib(a)),
            F::N(n) => L::N(node_to_lib(n)),
        }));
    }
    let mut rest = &libs[..];
    let mut b = match (initial, libs.first()) {
        (0, Some(L::A(a))) => {
            rest = &libs[1..];
            AlgBuilder::new(Some(a))
        }
        (0, Some(L::N(n))) => {
            rest = &libs[1..];
            AlgBuilder::new(Some(n))
        }
        (1, _) => AlgBuilder::new(None::<&Alg>),
        (2, _) => AlgBuilder::new(None::<&AlgNode>),
        _ => AlgBuilder::default(),
    };
    for f in rest {
        match f {
            L::A(a) => b.push(a),
            L::N(n) => b.push(n),
        }
    }
    let got = b.to_alg();
    ensure_eq!(from_lib(&got), want, "alg built from {} fragments", frags.len());
    for (f, l) in frags.iter().zip(&libs) {
        match (f, l) {
            (F::A(a), L::A(x)) => ensure_eq!(from_lib(x), *a, "a fragment after building"),
            (F::N(a), L::N(x)) => ensure_eq!(node_from_lib(x), *a, "a fragment after building"),
            _ => {}
        }
    }
    Ok(())
}
pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "Random sequences of up to 1200 fragments (algs, nodes, empty algs, repeated and inverted neighbours), with and without an initial fragment, are built and compared with plain concatenation; fragments are re-read afterwards. Non-trivial: at least two fragments; distinct by result and form.",
        assumptions: &[],
        subs: vec![Sub::random("fragments", 120_000, 2_000_000, c06_case)],
    }
}
