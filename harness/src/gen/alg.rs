//! Generators of algs, moves and notation text.
use super::dict::dict;
use crate::engine::Src;
use crate::model::alg::*;

pub fn small_amount(s: &mut Src) -> i32 {
    match s.weighted(&[6, 4, 3, 3, 2, 1, 1, 1]) {
        0 => 1,
        1 => -1,
        2 => 2,
        3 => -2,
        4 => 3,
        5 => 0,
        6 => -3,
        _ => s.range(-12, 12) as i32,
    }
}

/// Any amount a text can express.
pub fn amount(s: &mut Src) -> i32 {
    match s.weighted(&[10, 2, 2, 2, 1, 1, 2]) {
        6 => sized_amount(s),
        0 => small_amount(s),
        1 => s.range(-300, 300) as i32,
        2 => {
            let k = s.below(31);
            let v = (1i64 << k) + s.range(-1, 1);
            let v = v.min(i32::MAX as i64) as i32;
            if s.bool() {
                -v
            } else {
                v
            }
        }
        3 => dict_int(s, i32::MAX as i64) as i32 * if s.bool() { -1 } else { 1 },
        4 => *s.pick(&[i32::MAX, -i32::MAX, i32::MAX - 1, -(i32::MAX - 1), 1260, -1260, 105, 65535, 65536, 32768, 46341]),
        _ => s.range(-(i32::MAX as i64), i32::MAX as i64) as i32,
    }
}

/// An amount of any number of digits alike.
pub fn sized_amount(s: &mut Src) -> i32 {
    let k = s.below(31);
    let v = (1i64 << k) + s.below(1 << k) as i64;
    if s.bool() {
        -v as i32
    } else {
        v as i32
    }
}

/// A value near an integer literal of the code, within 0..=max.
pub fn dict_int(s: &mut Src, max: i64) -> i64 {
    let d = &dict().ints;
    if d.is_empty() {
        return 1;
    }
    let v = *s.pick(d) + *s.pick(&[0, 1, -1]);
    v.clamp(0, max)
}

pub fn layer(s: &mut Src) -> u32 {
    match s.weighted(&[8, 2, 2, 2, 1, 1]) {
        5 => {
            let k = s.below(32);
            (1u64 << k) as u32 + s.below(1 << k) as u32
        }
        0 => s.range(1, 4) as u32,
        1 => s.range(0, 300) as u32,
        2 => {
            let k = s.below(33);
            ((1i64 << k) + s.range(-1, 1)).clamp(0, u32::MAX as i64) as u32
        }
        3 => dict_int(s, u32::MAX as i64) as u32,
        _ => s.below(1 << 32) as u32,
    }
}

pub fn prefix(s: &mut Src) -> MPrefix {
    match s.weighted(&[8, 3, 3]) {
        0 => MPrefix::None,
        1 => MPrefix::Layer(layer(s)),
        _ => {
            let a = layer(s);
            let b = match s.weighted(&[3, 1, 1]) {
                0 => layer(s),
                1 => a,
                _ => a.saturating_add(1),
            };
            MPrefix::Range(a, b)
        }
    }
}

const FAMILIES: &[&str] = &[
    "R", "U", "F", "L", "D", "B", "M", "E", "S", "x", "y", "z", "r", "u", "f", "l", "d", "b", "Rw", "Uw", "Fw", "Lw", "Dw", "Bw", "Rv", "Uv", "UR", "DR", "DL",
    "UL", "ALL", "BL", "BR", "FL", "FR", "R_", "_", "Uw_x", "SPIN", "SWAP",
];
const INTERNAL: &[&str] = &["_SLASH_", "U_SQ_", "D_SQ_", "R_PLUS_", "U_PLUSPLUS_", "_PLUS_", "_PLUSPLUS_", "__PLUS_", "_", "__", "PLUS_", "R_PLUS__PLUS_", "ALL_PLUS_", "_SLASH", "_SLASH__", "R_SQ_", "_SQ_", "U_SQ", "u_SQ_", "U_SQ_D_SQ_"];
/// Ends of families that mean something, or might.
const ENDS: &[&str] = &["_PLUS_", "_PLUSPLUS_", "_SQ_", "_SLASH_", "_", "w", "v"];
const LETTERS: &[u8] = b"RULDFBxyzMESrwvabcdefghijklmnopqstuklAZCGHIJKNOPQTVWXY_";

pub fn family(s: &mut Src) -> String {
    match s.weighted(&[20, 5, 3, 2, 1]) {
        0 => s.pick(FAMILIES).to_string(),
        1 => {
            let n = 1 + s.size(4, 12);
            (0..n).map(|_| *s.pick(LETTERS) as char).collect()
        }
        2 => match s.bool() {
            false => s.pick(INTERNAL).to_string(),
            true => s.pick(FAMILIES).to_string() + *s.pick(ENDS),
        },
        3 => {
            let d = &dict().families;
            if d.is_empty() {
                "R".to_owned()
            } else {
                s.pick(d).clone()
            }
        }
        _ => {
            let n = 1 + s.size(8, 300);
            let c = *s.pick(LETTERS) as char;
            let mut f: String = std::iter::repeat_n(c, n).collect();
            if s.bool() {
                f.push_str(*s.pick(INTERNAL));
            }
            f
        }
    }
}

/// A move text can express: any prefix, family and amount.
pub fn any_move(s: &mut Src) -> MMove {
    match s.weighted(&[10, 2, 2, 1, 1]) {
        0 => MMove { prefix: prefix(s), family: family(s), amount: amount(s) },
        1 => mv(&s.pick(FAMILIES).to_string(), small_amount(s)),
        2 => slash(),
        3 => MMove { prefix: prefix(s), family: family(s) + PLUS, amount: amount(s) },
        _ => MMove { prefix: prefix(s), family: family(s) + PLUSPLUS, amount: if s.bool() { -1 } else { 1 } },
    }
}

const COMMENTS: &[&str] = &["", " ", " hello", "/", "//", " R U R' U'", " (", ")", " ]", "[", ",", ":", "'", " é中🎲", "\t", "\r", " a  b ", "\u{0}", " \"quoted\" \\n", "2"];

pub fn comment(s: &mut Src) -> String {
    if s.chance(1, 40) {
        // Long, also such that have no character boundary at many places.
        let n = match s.weighted(&[4, 2, 1]) {
            0 => 1 + s.size(40, 300),
            1 => (1usize << s.range(5, 12)) - 1 + s.usize(3),
            _ => 1 + s.usize(5000),
        };
        let a: String = (0..s.usize(3)).map(|_| 'x').collect();
        let unit = *s.pick(&["c", "é", "中", "🎲", "R U ", "("]);
        return a + &unit.repeat(n.div_ceil(unit.len()));
    }
    match s.weighted(&[6, 2, 1]) {
        0 => s.pick(COMMENTS).to_string(),
        1 => {
            let n = s.size(6, 60);
            (0..n).map(|_| *s.pick(b"RU'2 /()[],:.+-_x09\t") as char).collect()
        }
        _ => {
            let n = s.size(3, 12);
            (0..n).map(|_| char::from_u32(s.below(0x2ff0) as u32).filter(|c| *c != '\n').unwrap_or('é')).collect()
        }
    }
}

pub struct AlgParams<'a> {
    pub depth: usize,
    pub len: usize,
    pub comments: bool,
    pub mov: &'a mut dyn FnMut(&mut Src) -> MMove,
    pub amount: &'a mut dyn FnMut(&mut Src) -> i32,
    pub budget: usize,
    /// Whether moves of Square-1 tuples may stand elsewhere.
    pub near_tuples: bool,
}

/// An alg some text parses to. Single commutators and conjugates repeated once as a group included
/// (`([A, B])`).
pub fn gen_alg(s: &mut Src, p: &mut AlgParams) -> MAlg {
    let depth = p.depth;
    let mut a = gen_alg_at(s, p, true);
    if depth > 1 && s.chance(1, 6) {
        echo(s, &mut a);
    }
    a
}
/// Some enclosed alg stands in the place of another, within it or around it too.
fn echo(s: &mut Src, a: &mut MAlg) {
    let mut parts = vec![];
    enclosed(a, &mut |x| parts.push(x.clone()));
    if parts.len() < 2 || count_nodes(a) > 200 {
        return;
    }
    let from = s.usize(parts.len());
    let to = s.usize(parts.len());
    let mut n = 0;
    let part = &parts[from];
    if part.0.is_empty() {
        return;
    }
    enclosed(a, &mut |x| {
        if n == to {
            *x = part.clone();
        }
        n += 1;
    });
}
/// Every enclosed alg, but for tuples, from the inside out.
fn enclosed(a: &mut MAlg, f: &mut dyn FnMut(&mut MAlg)) {
    for n in a.0.iter_mut() {
        if as_tuple(n).is_some() {
            continue;
        }
        match n {
            MNode::Group(x, _) => {
                enclosed(x, f);
                f(x)
            }
            MNode::Comm(x, y) | MNode::Conj(x, y) => {
                enclosed(x, f);
                f(x);
                enclosed(y, f);
                f(y)
            }
            _ => {}
        }
    }
}

fn gen_alg_at(s: &mut Src, p: &mut AlgParams, top: bool) -> MAlg {
    let n = s.size(p.len, p.len * 4 + 2).min(p.budget);
    let mut nodes: Vec<MNode> = Vec::with_capacity(n);
    for _ in 0..n {
        if p.budget == 0 {
            break;
        }
        p.budget -= 1;
        // Sometimes the previous node again, or its inverse.
        let node = match nodes.last() {
            Some(MNode::Comment(_)) | None => gen_node(s, p),
            Some(last) if s.chance(1, 14) => {
                let last = MAlg(vec![last.clone()]);
                p.budget = p.budget.saturating_sub(count_nodes(&last));
                // The inverse of an alg with a comment may be none that text can express.
                let mut again = if s.bool() || print_alg(&last).contains("//") { last } else { invert(&last) };
                again.0.remove(0)
            }
            _ => gen_node(s, p),
        };
        nodes.push(node);
    }
    // Text never has a comment followed by anything but a newline, or at the end of an enclosed alg.
    let mut out = vec![];
    let k = nodes.len();
    for (i, n) in nodes.into_iter().enumerate() {
        let c = matches!(n, MNode::Comment(_));
        out.push(n);
        if c && !(top && i + 1 == k) {
            out.push(MNode::Newline);
        }
    }
    MAlg(out)
}

pub fn gen_node(s: &mut Src, p: &mut AlgParams) -> MNode {
    let deep = p.depth > 0;
    let w: [u32; 8] = [12, if deep { 4 } else { 0 }, if deep { 3 } else { 0 }, if deep { 3 } else { 0 }, 1, if p.comments { 1 } else { 0 }, if p.comments { 1 } else { 0 }, 1];
    let sub = |s: &mut Src, p: &mut AlgParams| {
        p.depth -= 1;
        let len = p.len;
        p.len = (len * 2 / 3).max(1);
        let a = gen_alg_at(s, p, false);
        p.len = len;
        p.depth += 1;
        a
    };
    match s.weighted(&w) {
        0 => MNode::Move((p.mov)(s)),
        1 => {
            let a = sub(s, p);
            MNode::Group(a, (p.amount)(s))
        }
        2 => {
            let a = sub(s, p);
            let b = other_half(s, p, &a).unwrap_or_else(|| sub(s, p));
            wrap(s, p, MNode::Comm(a, b))
        }
        3 => {
            let a = sub(s, p);
            let b = other_half(s, p, &a).unwrap_or_else(|| sub(s, p));
            wrap(s, p, MNode::Conj(a, b))
        }
        4 => MNode::Pause,
        5 => MNode::Newline,
        6 => MNode::Comment(comment(s)),
        _ => {
            let (x, y) = ((p.amount)(s), (p.amount)(s));
            if s.chance(1, 4) {
                // Two moves alone.
                let pair = vec![(p.mov)(s), (p.mov)(s)];
                return MNode::Group(MAlg(pair.into_iter().map(MNode::Move).collect()), if s.bool() { 1 } else { (p.amount)(s) });
            }
            if !p.near_tuples || s.chance(2, 3) {
                return tuple(x, y);
            }
            // Almost a tuple.
            let pair = match s.weighted(&[6, 1, 1, 1]) {
                0 => vec![mv(U_SQ, x), mv(D_SQ, y)],
                1 => vec![mv(D_SQ, x), mv(U_SQ, y)],
                2 => vec![mv(U_SQ, x), (p.mov)(s)],
                _ => vec![mv(U_SQ, x), mv(D_SQ, y), mv(U_SQ, x)],
            };
            MNode::Group(MAlg(pair.into_iter().map(MNode::Move).collect()), (p.amount)(s))
        }
    }
}
/// Sometimes, the second half of a commutator or conjugate repeats the first, or undoes it, or is a
/// construct around or in which the first stands again.
fn other_half(s: &mut Src, p: &mut AlgParams, a: &MAlg) -> Option<MAlg> {
    if !s.chance(1, 8) || count_nodes(a) > p.budget {
        return None;
    }
    p.budget -= count_nodes(a);
    let again = if s.chance(2, 3) || print_alg(a).contains("//") { a.clone() } else { invert(a) };
    if p.depth < 2 || s.chance(1, 3) {
        return Some(again);
    }
    let (mut x, mut y) = (again, small(s, p));
    if s.chance(1, 3) {
        std::mem::swap(&mut x, &mut y);
    }
    let node = match s.weighted(&[3, 3, 1]) {
        0 => MNode::Conj(x, y),
        1 => MNode::Comm(x, y),
        _ => MNode::Group(x, (p.amount)(s)),
    };
    let mut nodes = vec![node];
    if s.chance(1, 4) {
        nodes.insert(s.usize(2), MNode::Move((p.mov)(s)));
    }
    Some(MAlg(nodes))
}
/// A few moves.
fn small(s: &mut Src, p: &mut AlgParams) -> MAlg {
    let n = 1 + s.usize(3);
    MAlg((0..n).map(|_| MNode::Move((p.mov)(s))).collect())
}
fn wrap(s: &mut Src, p: &mut AlgParams, n: MNode) -> MNode {
    match s.weighted(&[5, 2, 1]) {
        0 => n,
        1 => MNode::Group(MAlg(vec![n]), (p.amount)(s)),
        _ => MNode::Group(MAlg(vec![n]), 1),
    }
}

/// The usual generator: any alg text can express.
pub fn text_alg(s: &mut Src) -> MAlg {
    let (depth, len, budget) = match s.weighted(&[10, 4, 2, 1, 1]) {
        0 => (3, 4, 40),
        1 => (5, 6, 120),
        2 => (2, 40, 400),
        3 => (12, 2, 200),
        _ => (0, 3, 10),
    };
    if s.chance(1, 20) {
        // A chain of nested single nodes.
        let mut a = MAlg(vec![MNode::Move(any_move(s))]);
        let d = s.size(8, 40);
        for _ in 0..d {
            let m = MAlg(vec![MNode::Move(any_move(s))]);
            let am = small_amount(s);
            a = MAlg(vec![match s.weighted(&[3, 1, 1, 1, 1]) {
                0 => MNode::Group(a, am),
                1 => MNode::Comm(a, m),
                2 => MNode::Comm(m, a),
                3 => MNode::Conj(a, m),
                _ => MNode::Conj(m, a),
            }]);
        }
        return a;
    }
    let mut mov = any_move;
    let mut am = amount;
    gen_alg(s, &mut AlgParams { depth, len, comments: true, mov: &mut mov, amount: &mut am, budget, near_tuples: true })
}

/// How many nodes a long alg has.
pub fn long_count(s: &mut Src) -> usize {
    let near = |s: &mut Src, k: usize| k - 2 + s.usize(5);
    s.heavy = true;
    match s.weighted(&[6, 4, 3, 2, 1, 1]) {
        0 => 100 + s.usize(500),
        1 => {
            let k = 1 << s.range(7, 10);
            near(s, k)
        }
        2 => {
            let k = *s.pick(&[100usize, 1000, 4096, 5000, 8192]);
            near(s, k)
        }
        3 => dict_int(s, 20_000).max(100) as usize,
        4 => 100 + s.usize(10_000),
        _ => {
            let k = *s.pick(&[10_000usize, 16_384, 32_768, 65_536]);
            near(s, k)
        }
    }
}
/// Repeats the elements in turn up to the count, with a few places exchanged: which element stands where.
pub fn long_order(s: &mut Src, elements: usize, n: usize) -> Vec<usize> {
    let mut order: Vec<usize> = match s.usize(3) {
        0 => (0..n).map(|i| i % elements).collect(),
        1 => vec![0; n],
        _ => {
            let mut x = s.below(1 << 32) | 1;
            (0..n)
                .map(|_| {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (x >> 33) as usize % elements
                })
                .collect()
        }
    };
    for _ in 0..s.usize(4) {
        let at = match s.usize(3) {
            0 => s.usize(n),
            1 => n - 1 - s.usize(2),
            _ => ((1usize << s.usize(17)) - s.usize(2)).min(n - 1),
        };
        order[at] = s.usize(elements);
    }
    order
}
/// An alg of hundreds to tens of thousands of nodes (no comments, only a few different ones), and a text for it.
pub fn long_alg(s: &mut Src, p: &mut AlgParams) -> (MAlg, String) {
    p.comments = false;
    let mut elements = vec![];
    while elements.len() < 1 + s.usize(6) {
        let n = gen_node(s, p);
        if n != MNode::Newline {
            elements.push(n);
        }
    }
    let texts: Vec<String> = elements.iter().map(|n| spell_node(s, n)).collect();
    let n = long_count(s);
    let order = long_order(s, elements.len(), n);
    let a = MAlg(order.iter().map(|i| elements[*i].clone()).collect());
    let t = order.iter().map(|i| texts[*i].as_str()).collect::<Vec<_>>().join(" ");
    let b = MAlg(vec![elements[0].clone()]);
    let bt = &texts[0];
    match s.weighted(&[6, 1, 1, 1, 1]) {
        0 => (a, t),
        1 => {
            let k = (p.amount)(s);
            let kt = spell_amount(s, k);
            (MAlg(vec![MNode::Group(a, k)]), format!("({}){}", t, kt))
        }
        2 => (MAlg(vec![MNode::Comm(a, b)]), format!("[{}, {}]", t, bt)),
        3 => (MAlg(vec![MNode::Conj(b, a)]), format!("[{}: {}]", bt, t)),
        _ => (MAlg(vec![MNode::Conj(a, b)]), format!("[{}: {}]", t, bt)),
    }
}
/// As `text_alg`, but long.
pub fn long_text_alg(s: &mut Src) -> (MAlg, String) {
    let (mut mov, mut am) = (any_move, amount);
    long_alg(s, &mut AlgParams { depth: 1, len: 2, comments: false, mov: &mut mov, amount: &mut am, budget: 12, near_tuples: true })
}

/// Like `text_alg`, but of nodes that need not come from one text: comments anywhere.
pub fn built_alg(s: &mut Src) -> MAlg {
    let mut a = text_alg(s);
    loosen(s, &mut a);
    a
}
fn loosen(s: &mut Src, a: &mut MAlg) {
    // Drops newlines after comments, moves comments to the end.
    let mut i = 0;
    while i < a.0.len() {
        match &mut a.0[i] {
            MNode::Group(x, _) => loosen(s, x),
            MNode::Comm(x, y) | MNode::Conj(x, y) => {
                loosen(s, x);
                loosen(s, y)
            }
            _ => {}
        }
        if i + 1 < a.0.len() && matches!(a.0[i], MNode::Comment(_)) && a.0[i + 1] == MNode::Newline && s.bool() {
            a.0.remove(i + 1);
        }
        i += 1;
    }
    if s.chance(1, 12) {
        let c = comment(s);
        a.0.push(MNode::Comment(c));
    }
}

// ------------------------------------------------------------------------------------ spelling

fn digits(s: &mut Src, v: u64) -> String {
    let z = match s.weighted(&[14, 1, 1]) {
        0 => 0,
        1 => 1,
        _ => s.usize(30),
    };
    format!("{}{}", "0".repeat(z), v)
}
/// One of the spellings of an amount.
fn spell_amount(s: &mut Src, a: i32) -> String {
    if a == 1 && !s.chance(1, 6) {
        return String::new();
    }
    if a == -1 && !s.chance(1, 6) {
        return "'".to_owned();
    }
    let d = digits(s, (a as i64).unsigned_abs());
    if a < 0 || (a == 0 && s.bool()) {
        d + "'"
    } else {
        d
    }
}
pub fn spell_prefix(s: &mut Src, p: &MPrefix) -> String {
    match p {
        MPrefix::None => String::new(),
        MPrefix::Layer(l) => digits(s, *l as u64),
        MPrefix::Range(a, b) => format!("{}-{}", digits(s, *a as u64), digits(s, *b as u64)),
    }
}
pub fn spell_move(s: &mut Src, m: &MMove) -> String {
    if *m == slash() && !s.chance(1, 5) {
        return "/".to_owned();
    }
    let pre = spell_prefix(s, &m.prefix);
    if m.family.len() > PLUS.len() && m.family.ends_with(PLUS) && !s.chance(1, 8) {
        let f = &m.family[..m.family.len() - PLUS.len()];
        let neg = m.amount < 0 || (m.amount == 0 && s.bool());
        return format!("{}{}{}{}", pre, f, digits(s, (m.amount as i64).unsigned_abs()), if neg { '-' } else { '+' });
    }
    if m.family.len() > PLUSPLUS.len() && m.family.ends_with(PLUSPLUS) && m.amount.abs() == 1 && !s.chance(1, 8) {
        let f = &m.family[..m.family.len() - PLUSPLUS.len()];
        return format!("{}{}{}", pre, f, if m.amount == 1 { "++" } else { "--" });
    }
    format!("{}{}{}", pre, m.family, spell_amount(s, m.amount))
}
fn spaces(s: &mut Src, min: usize) -> String {
    let n = match s.weighted(&[12, 2, 1]) {
        0 => min,
        1 => min + 1,
        _ => min + s.usize(6),
    };
    " ".repeat(n)
}
fn spell_signed(s: &mut Src, a: i32) -> String {
    let d = digits(s, (a as i64).unsigned_abs());
    if a < 0 || (a == 0 && s.chance(1, 4)) {
        format!("-{}", d)
    } else {
        d
    }
}
pub fn spell_node(s: &mut Src, n: &MNode) -> String {
    match n {
        MNode::Move(m) => spell_move(s, m),
        MNode::Pause => ".".to_owned(),
        MNode::Newline => "\n".to_owned(),
        MNode::Comment(t) => format!("//{}", t),
        MNode::Comm(a, b) => {
            let one = if s.chance(1, 10) { digits(s, 1) } else { String::new() };
            format!("[{},{}]{}", spell_alg(s, a), spell_alg(s, b), one)
        }
        MNode::Conj(a, b) => {
            let one = if s.chance(1, 10) { digits(s, 1) } else { String::new() };
            format!("[{}:{}]{}", spell_alg(s, a), spell_alg(s, b), one)
        }
        MNode::Group(a, amount) => {
            if let Some((x, y)) = as_tuple(n) {
                if !s.chance(1, 8) {
                    return format!("({}, {})", spell_signed(s, x), spell_signed(s, y));
                }
            }
            if let [x @ (MNode::Comm(..) | MNode::Conj(..))] = &a.0[..] {
                if *amount != 1 && !s.chance(1, 4) {
                    // The amount directly after the brackets.
                    let (l, r, sep) = match x {
                        MNode::Comm(l, r) => (l, r, ','),
                        MNode::Conj(l, r) => (l, r, ':'),
                        _ => unreachable!(),
                    };
                    return format!("[{}{}{}]{}", spell_alg(s, l), sep, spell_alg(s, r), spell_amount(s, *amount));
                }
            }
            format!("({}){}", spell_alg(s, a), spell_amount(s, *amount))
        }
    }
}
/// A text that parses to the alg (which must be one text can express).
pub fn spell_alg(s: &mut Src, a: &MAlg) -> String {
    let mut t = spaces(s, 0);
    let mut prev: Option<&MNode> = None;
    for n in &a.0 {
        let need = !matches!(prev, None | Some(MNode::Newline)) && *n != MNode::Newline;
        if prev.is_some() {
            if matches!(prev, Some(MNode::Comment(_))) {
                // Spaces would belong to the comment.
            } else {
                t += &spaces(s, need as usize);
            }
        }
        t += &spell_node(s, n);
        prev = Some(n);
    }
    if !matches!(prev, Some(MNode::Comment(_))) {
        t += &spaces(s, 0);
    }
    t
}

// ------------------------------------------------------------------------------------ arbitrary text

const TOKENS: &[&str] = &[
    "R", "U", "'", "2", "(", ")", "[", "]", ",", ":", " ", "  ", "\n", "/", "//", ".", "+", "-", "++", "--", "1+", "2-", "3-4", "0", "00", "2147483647", "2147483648",
    "4294967295", "4294967296", "99999999999999999999", "_", "Rw", "x", ", ", ": ", "(1, 2)", "(-3, 4)", "[R, U]", "[F: R]", "(R U)2", "\t", "\r", "\r\n", "é", "’", "−", "²", "\u{0}", "R2'",
    "R'2", "_SLASH_", "U_SQ_", "D_SQ_", "// c", "*", "{", "}", "|", "\u{a0}", "\u{3000}", "Ｒ", "٣",
];

pub fn token_soup(s: &mut Src) -> String {
    let n = s.size(8, 60);
    let mut t = String::new();
    for _ in 0..n {
        match s.weighted(&[10, 3, 2, 1]) {
            0 => t.push_str(*s.pick(TOKENS)),
            1 => {
                let m = any_move(s);
                t += &spell_move(s, &m)
            }
            2 => {
                let d = &dict().strings;
                if !d.is_empty() {
                    t += &s.pick(d).clone()
                }
            }
            _ => {
                if let Some(c) = char::from_u32(s.below(0x500) as u32) {
                    t.push(c)
                }
            }
        }
    }
    t
}

/// Edits a text slightly.
pub fn mutate(s: &mut Src, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    let n = 1 + s.size(1, 4);
    for _ in 0..n {
        let i = s.usize(cs.len() + 1);
        match s.weighted(&[3, 3, 2, 2, 1]) {
            0 => {
                let tok: Vec<char> = s.pick(TOKENS).chars().collect();
                cs.splice(i..i, tok);
            }
            1 => {
                if i < cs.len() {
                    cs.remove(i);
                }
            }
            2 => {
                if i < cs.len() {
                    let j = s.usize(cs.len());
                    cs.swap(i, j);
                }
            }
            3 => {
                if i < cs.len() {
                    cs[i] = *s.pick(&[' ', '\'', '2', '(', ')', '[', ']', ',', ':', '/', '\n', '+', '-', 'R', '_', '.', '0', '9']);
                }
            }
            _ => {
                let j = (i + s.usize(8)).min(cs.len());
                let part: Vec<char> = cs[i..j].to_vec();
                cs.splice(j..j, part);
            }
        }
    }
    cs.into_iter().collect()
}

/// Text of every kind: valid spellings, near misses, token soup, plain garbage.
pub fn any_text(s: &mut Src) -> String {
    match s.weighted(&[4, 5, 4, 1, 1]) {
        0 => {
            let a = text_alg(s);
            spell_alg(s, &a)
        }
        1 => {
            let a = if s.bool() {
                let a = text_alg(s);
                spell_alg(s, &a)
            } else {
                let m = any_move(s);
                spell_move(s, &m)
            };
            mutate(s, &a)
        }
        2 => token_soup(s),
        3 => {
            let n = s.size(6, 40);
            if s.chance(1, 3) {
                // Outside of comments, too.
                let c = *s.pick(&['é', '中', '🎲', '\u{301}', '’', '−']);
                let n = 1 + s.size(10, 400);
                return (0..s.usize(4)).map(|_| 'R').chain((0..n).map(|_| c)).collect();
            }
            (0..n).map(|_| s.below(128) as u8 as char).collect()
        }
        _ => {
            let m = any_move(s);
            spell_move(s, &m)
        }
    }
}
