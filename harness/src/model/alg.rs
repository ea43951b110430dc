//! An independent model of alg notation: syntax tree, reference parser, canonical printer, inverter.
use cubing::alg as lib;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MPrefix {
    None,
    Layer(u32),
    Range(u32, u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MMove {
    pub prefix: MPrefix,
    pub family: String,
    pub amount: i32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MNode {
    Move(MMove),
    Pause,
    Newline,
    Comment(String),
    Group(MAlg, i32),
    Comm(MAlg, MAlg),
    Conj(MAlg, MAlg),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct MAlg(pub Vec<MNode>);

pub const SLASH: &str = "_SLASH_";
pub const U_SQ: &str = "U_SQ_";
pub const D_SQ: &str = "D_SQ_";
pub const PLUS: &str = "_PLUS_";
pub const PLUSPLUS: &str = "_PLUSPLUS_";

pub fn mv(family: &str, amount: i32) -> MMove {
    MMove { prefix: MPrefix::None, family: family.to_owned(), amount }
}
pub fn slash() -> MMove {
    mv(SLASH, 1)
}
pub fn tuple(a: i32, b: i32) -> MNode {
    MNode::Group(MAlg(vec![MNode::Move(mv(U_SQ, a)), MNode::Move(mv(D_SQ, b))]), 1)
}

// ------------------------------------------------------------------------------------ reference parser

struct P<'a> {
    s: &'a [u8],
    text: &'a str,
    i: usize,
}

/// A number of decimal digits with value at most `max`; anything larger is not a number.
fn number(digits: &str, max: u64) -> Option<u64> {
    let mut v: u64 = 0;
    for d in digits.bytes() {
        v = v * 10 + (d - b'0') as u64;
        if v > max {
            // Keep it saturated: more digits never make it smaller (leading zeros are fine).
            v = max + 1;
        }
    }
    if v > max {
        None
    } else {
        Some(v)
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn at(&self, k: usize) -> u8 {
        self.s.get(self.i + k).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.i < self.s.len() && self.s[self.i] == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn end(&self) -> bool {
        self.i >= self.s.len()
    }
    fn digits(&mut self) -> Option<&'a str> {
        let st = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        if self.i > st {
            Some(&self.text[st..self.i])
        } else {
            None
        }
    }
    fn quantum(&mut self) -> Option<(MPrefix, String)> {
        let prefix = match self.digits() {
            None => MPrefix::None,
            Some(d) => {
                let outer = number(d, u32::MAX as u64)? as u32;
                if self.eat(b'-') {
                    let d = self.digits()?;
                    MPrefix::Range(outer, number(d, u32::MAX as u64)? as u32)
                } else {
                    MPrefix::Layer(outer)
                }
            }
        };
        let st = self.i;
        while self.peek().is_ascii_alphabetic() || self.peek() == b'_' {
            self.i += 1;
        }
        if st == self.i {
            return None;
        }
        Some((prefix, self.text[st..self.i].to_owned()))
    }
    fn amount(&mut self) -> Option<i32> {
        let mut a: i64 = 1;
        if let Some(d) = self.digits() {
            a = number(d, i32::MAX as u64)? as i64;
        }
        if self.eat(b'\'') {
            a = -a;
        }
        Some(a as i32)
    }
    fn mov(&mut self) -> Option<MMove> {
        if self.eat(b'/') {
            return Some(slash());
        }
        let (prefix, family) = self.quantum()?;
        let c = self.peek();
        if (c == b'+' || c == b'-') && self.at(1) == c {
            self.i += 2;
            return Some(MMove { prefix, family: family + PLUSPLUS, amount: if c == b'+' { 1 } else { -1 } });
        }
        if c.is_ascii_digit() {
            let d = self.digits()?;
            let a = number(d, i32::MAX as u64)? as i32;
            if self.eat(b'+') {
                return Some(MMove { prefix, family: family + PLUS, amount: a });
            }
            if self.eat(b'-') {
                return Some(MMove { prefix, family: family + PLUS, amount: -a });
            }
            let a = if self.eat(b'\'') { -a } else { a };
            return Some(MMove { prefix, family, amount: a });
        }
        let amount = if self.eat(b'\'') { -1 } else { 1 };
        Some(MMove { prefix, family, amount })
    }
    fn tuple_number(&mut self) -> Option<i32> {
        let neg = self.eat(b'-');
        let d = self.digits()?;
        let n = number(d, i32::MAX as u64)? as i32;
        Some(if neg { -n } else { n })
    }
    /// After "(": "3, -4)".
    fn try_tuple(&mut self) -> Option<MNode> {
        let st = self.i;
        let r = (|| {
            let a = self.tuple_number()?;
            if !self.eat(b',') || !self.eat(b' ') {
                return None;
            }
            let b = self.tuple_number()?;
            if !self.eat(b')') {
                return None;
            }
            Some(tuple(a, b))
        })();
        if r.is_none() {
            self.i = st;
        }
        r
    }
    fn node(&mut self) -> Option<MNode> {
        match self.peek() {
            b'/' if self.at(1) == b'/' => {
                let st = self.i + 2;
                let mut e = st;
                while e < self.s.len() && self.s[e] != b'\n' {
                    e += 1;
                }
                self.i = e;
                Some(MNode::Comment(self.text[st..e].to_owned()))
            }
            b'.' => {
                self.i += 1;
                Some(MNode::Pause)
            }
            b'\n' => {
                self.i += 1;
                Some(MNode::Newline)
            }
            b'(' => {
                self.i += 1;
                if let Some(t) = self.try_tuple() {
                    return Some(t);
                }
                let inner = self.alg()?;
                if !self.eat(b')') {
                    return None;
                }
                let a = self.amount()?;
                Some(MNode::Group(inner, a))
            }
            b'[' => {
                self.i += 1;
                let a = self.alg()?;
                let sep = self.peek();
                if sep != b',' && sep != b':' {
                    return None;
                }
                self.i += 1;
                let b = self.alg()?;
                if !self.eat(b']') {
                    return None;
                }
                let n = self.amount()?;
                let node = if sep == b',' { MNode::Comm(a, b) } else { MNode::Conj(a, b) };
                Some(if n == 1 { node } else { MNode::Group(MAlg(vec![node]), n) })
            }
            _ => Some(MNode::Move(self.mov()?)),
        }
    }
    /// A sequence of nodes up to a closing delimiter or the end.
    fn alg(&mut self) -> Option<MAlg> {
        let mut nodes: Vec<MNode> = vec![];
        loop {
            let mut spaced = false;
            while self.eat(b' ') {
                spaced = true;
            }
            if self.end() || matches!(self.peek(), b')' | b']' | b',' | b':') {
                return Some(MAlg(nodes));
            }
            let node = self.node()?;
            if node != MNode::Newline && !spaced && !matches!(nodes.last(), None | Some(MNode::Newline)) {
                return None; // neighbours must be separated
            }
            nodes.push(node);
        }
    }
}

fn p(text: &str) -> P<'_> {
    P { s: text.as_bytes(), text, i: 0 }
}

pub fn ref_parse_alg(text: &str) -> Option<MAlg> {
    let mut p = p(text);
    let a = p.alg()?;
    if p.end() {
        Some(a)
    } else {
        None
    }
}
pub fn ref_parse_move(text: &str) -> Option<MMove> {
    let mut p = p(text);
    let a = p.mov()?;
    if p.end() {
        Some(a)
    } else {
        None
    }
}
pub fn ref_parse_quantum(text: &str) -> Option<(MPrefix, String)> {
    let mut p = p(text);
    let a = p.quantum()?;
    if p.end() {
        Some(a)
    } else {
        None
    }
}

// ------------------------------------------------------------------------------------ canonical printer

pub fn print_amount(a: i32) -> String {
    match a {
        1 => String::new(),
        -1 => "'".to_owned(),
        a if a < 0 => format!("{}'", -(a as i64)),
        a => a.to_string(),
    }
}
pub fn print_prefix(p: &MPrefix) -> String {
    match p {
        MPrefix::None => String::new(),
        MPrefix::Layer(l) => l.to_string(),
        MPrefix::Range(a, b) => format!("{}-{}", a, b),
    }
}
pub fn print_move(m: &MMove) -> String {
    if *m == slash() {
        return "/".to_owned();
    }
    let pre = print_prefix(&m.prefix);
    if m.family.len() > PLUS.len() && m.family.ends_with(PLUS) {
        let f = &m.family[..m.family.len() - PLUS.len()];
        return format!("{}{}{}{}", pre, f, (m.amount as i64).abs(), if m.amount < 0 { '-' } else { '+' });
    }
    if m.family.len() > PLUSPLUS.len() && m.family.ends_with(PLUSPLUS) && m.amount.abs() == 1 {
        let f = &m.family[..m.family.len() - PLUSPLUS.len()];
        return format!("{}{}{}", pre, f, if m.amount == 1 { "++" } else { "--" });
    }
    format!("{}{}{}", pre, m.family, print_amount(m.amount))
}
pub fn as_tuple(n: &MNode) -> Option<(i32, i32)> {
    if let MNode::Group(MAlg(nodes), 1) = n {
        if let [MNode::Move(a), MNode::Move(b)] = &nodes[..] {
            if a.family == U_SQ && b.family == D_SQ && a.prefix == MPrefix::None && b.prefix == MPrefix::None {
                return Some((a.amount, b.amount));
            }
        }
    }
    None
}
fn print_enclosed(a: &MAlg) -> String {
    let mut s = print_alg(a);
    if let Some(MNode::Comment(_)) = a.0.last() {
        s.push('\n');
    }
    s
}
pub fn print_node(n: &MNode) -> String {
    match n {
        MNode::Move(m) => print_move(m),
        MNode::Pause => ".".to_owned(),
        MNode::Newline => "\n".to_owned(),
        MNode::Comment(t) => format!("//{}", t),
        MNode::Comm(a, b) => format!("[{}, {}]", print_enclosed(a), print_enclosed(b)),
        MNode::Conj(a, b) => format!("[{}: {}]", print_enclosed(a), print_enclosed(b)),
        MNode::Group(alg, amount) => {
            if let Some((a, b)) = as_tuple(n) {
                return format!("({}, {})", a, b);
            }
            match &alg.0[..] {
                [x @ (MNode::Comm(..) | MNode::Conj(..))] => format!("{}{}", print_node(x), print_amount(*amount)),
                _ => format!("({}){}", print_enclosed(alg), print_amount(*amount)),
            }
        }
    }
}
pub fn print_alg(a: &MAlg) -> String {
    let mut s = String::new();
    let mut prev: Option<&MNode> = None;
    for n in &a.0 {
        match (prev, n) {
            (None, _) => {}
            (Some(MNode::Newline), _) => {}
            (Some(_), MNode::Newline) => {}
            (Some(MNode::Comment(_)), _) => s.push('\n'),
            _ => s.push(' '),
        }
        s += &print_node(n);
        prev = Some(n);
    }
    s
}

/// What printing and reading back gives: comments gain the newline that ends them, and a
/// once-repeated group holding only a commutator or conjugate becomes that node.
pub fn normalise(a: &MAlg, enclosed: bool) -> MAlg {
    let mut out = vec![];
    for (i, n) in a.0.iter().enumerate() {
        let m = match n {
            MNode::Group(inner, amount) => match &inner.0[..] {
                [x @ (MNode::Comm(..) | MNode::Conj(..))] => {
                    let x = normalise(&MAlg(vec![x.clone()]), true).0.remove(0);
                    if *amount == 1 {
                        x
                    } else {
                        MNode::Group(MAlg(vec![x]), *amount)
                    }
                }
                _ => MNode::Group(normalise(inner, true), *amount),
            },
            MNode::Comm(x, y) => MNode::Comm(normalise(x, true), normalise(y, true)),
            MNode::Conj(x, y) => MNode::Conj(normalise(x, true), normalise(y, true)),
            other => other.clone(),
        };
        out.push(m);
        if let MNode::Comment(_) = n {
            match a.0.get(i + 1) {
                Some(MNode::Newline) => {}
                Some(_) => out.push(MNode::Newline),
                None if enclosed => out.push(MNode::Newline),
                None => {}
            }
        }
    }
    MAlg(out)
}

/// Whether a once-repeated group holding only a commutator or conjugate occurs.
pub fn has_redundant_group(a: &MAlg) -> bool {
    a.0.iter().any(|n| match n {
        MNode::Group(i, amount) => (*amount == 1 && matches!(&i.0[..], [MNode::Comm(..) | MNode::Conj(..)])) || has_redundant_group(i),
        MNode::Comm(x, y) | MNode::Conj(x, y) => has_redundant_group(x) || has_redundant_group(y),
        _ => false,
    })
}

// ------------------------------------------------------------------------------------ inverse

pub fn invert_move(m: &MMove) -> MMove {
    if m.family == SLASH && m.prefix == MPrefix::None {
        return m.clone();
    }
    MMove { amount: -m.amount, ..m.clone() }
}
pub fn invert_node(n: &MNode) -> MNode {
    match n {
        MNode::Move(m) => MNode::Move(invert_move(m)),
        MNode::Comm(a, b) => MNode::Comm(b.clone(), a.clone()),
        MNode::Conj(a, b) => MNode::Conj(a.clone(), invert(b)),
        MNode::Group(a, amount) => {
            if let Some((x, y)) = as_tuple(n) {
                return tuple(-x, -y);
            }
            MNode::Group(a.clone(), -amount)
        }
        other => other.clone(),
    }
}
pub fn invert(a: &MAlg) -> MAlg {
    MAlg(a.0.iter().rev().map(invert_node).collect())
}

/// A tuple spelled out as a group repeated -1 times becomes the tuple it is equivalent to.
pub fn resolve_negated_tuples(a: &MAlg) -> MAlg {
    MAlg(
        a.0.iter()
            .map(|n| match n {
                MNode::Group(i, -1) => match as_tuple(&MNode::Group(i.clone(), 1)) {
                    Some((x, y)) => tuple(-x, -y),
                    None => MNode::Group(resolve_negated_tuples(i), -1),
                },
                MNode::Group(i, k) => MNode::Group(resolve_negated_tuples(i), *k),
                MNode::Comm(x, y) => MNode::Comm(resolve_negated_tuples(x), resolve_negated_tuples(y)),
                MNode::Conj(x, y) => MNode::Conj(resolve_negated_tuples(x), resolve_negated_tuples(y)),
                other => other.clone(),
            })
            .collect(),
    )
}

// ------------------------------------------------------------------------------------ measures

pub fn depth(a: &MAlg) -> usize {
    a.0.iter()
        .map(|n| match n {
            MNode::Group(i, _) => 1 + depth(i),
            MNode::Comm(x, y) | MNode::Conj(x, y) => 1 + depth(x).max(depth(y)),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}
pub fn count_nodes(a: &MAlg) -> usize {
    a.0.iter()
        .map(|n| match n {
            MNode::Group(i, _) => 1 + count_nodes(i),
            MNode::Comm(x, y) | MNode::Conj(x, y) => 1 + count_nodes(x) + count_nodes(y),
            _ => 1,
        })
        .sum()
}
pub fn moves_in(a: &MAlg, out: &mut Vec<MMove>) {
    for n in &a.0 {
        match n {
            MNode::Move(m) => out.push(m.clone()),
            MNode::Group(i, _) => moves_in(i, out),
            MNode::Comm(x, y) | MNode::Conj(x, y) => {
                moves_in(x, out);
                moves_in(y, out)
            }
            _ => {}
        }
    }
}
/// Number of move lookups a direct evaluation makes when commutators and conjugates are evaluated
/// by evaluating their parts and their inverted parts.
pub fn eval_cost(a: &MAlg) -> u64 {
    a.0.iter()
        .map(|n| match n {
            MNode::Group(i, _) => 1 + eval_cost(i),
            MNode::Comm(x, y) => eval_cost(x).saturating_mul(2).saturating_add(eval_cost(y).saturating_mul(2)).saturating_add(1),
            MNode::Conj(x, y) => eval_cost(x).saturating_mul(2).saturating_add(eval_cost(y)).saturating_add(1),
            _ => 1,
        })
        .fold(0u64, |a, b| a.saturating_add(b))
}

// ------------------------------------------------------------------------------------ conversions

pub fn move_to_lib(m: &MMove) -> lib::Move {
    lib::Move { quantum: Arc::new(quantum_to_lib(m)), amount: m.amount }
}
pub fn quantum_to_lib(m: &MMove) -> lib::QuantumMove {
    let prefix = match &m.prefix {
        MPrefix::None => None,
        MPrefix::Layer(l) => Some(lib::MovePrefix::Layer(lib::MoveLayer { layer: *l })),
        MPrefix::Range(a, b) => Some(lib::MovePrefix::Range(lib::MoveRange { outer_layer: *a, inner_layer: *b })),
    };
    lib::QuantumMove { family: m.family.clone(), prefix }
}
pub fn quantum_from_lib(q: &lib::QuantumMove) -> (MPrefix, String) {
    let prefix = match &q.prefix {
        None => MPrefix::None,
        Some(lib::MovePrefix::Layer(l)) => MPrefix::Layer(l.layer),
        Some(lib::MovePrefix::Range(r)) => MPrefix::Range(r.outer_layer, r.inner_layer),
    };
    (prefix, q.family.clone())
}
pub fn move_from_lib(m: &lib::Move) -> MMove {
    let (prefix, family) = quantum_from_lib(&m.quantum);
    MMove { prefix, family, amount: m.amount }
}
/// Parts made once and standing (shared) wherever they recur.
#[derive(Default)]
struct Pool {
    algs: HashMap<MAlg, Arc<lib::Alg>>,
    quanta: HashMap<(MPrefix, String), Arc<lib::QuantumMove>>,
}
/// Whether recurring parts of a value are shared in memory depends on the value alone.
fn pool_for(x: &impl Hash) -> Option<Pool> {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish().is_multiple_of(3).then(Pool::default)
}
fn node_in(n: &MNode, pool: &mut Option<Pool>) -> lib::AlgNode {
    match n {
        MNode::Move(m) => lib::AlgNode::MoveNode(match pool {
            Some(pool) => lib::Move { quantum: pool.quanta.entry((m.prefix.clone(), m.family.clone())).or_insert_with(|| Arc::new(quantum_to_lib(m))).clone(), amount: m.amount },
            None => move_to_lib(m),
        }),
        MNode::Pause => lib::AlgNode::PauseNode(lib::Pause {}),
        MNode::Newline => lib::AlgNode::NewlineNode(lib::Newline {}),
        MNode::Comment(t) => lib::AlgNode::LineCommentNode(lib::LineComment::try_new(t).expect("comment without newline")),
        MNode::Group(a, amount) => lib::AlgNode::GroupingNode(lib::Grouping { alg: enclosed_in(a, pool), amount: *amount }),
        MNode::Comm(a, b) => lib::AlgNode::CommutatorNode(lib::Commutator { a: enclosed_in(a, pool), b: enclosed_in(b, pool) }),
        MNode::Conj(a, b) => lib::AlgNode::ConjugateNode(lib::Conjugate { a: enclosed_in(a, pool), b: enclosed_in(b, pool) }),
    }
}
fn enclosed_in(a: &MAlg, pool: &mut Option<Pool>) -> Arc<lib::Alg> {
    if let Some(x) = pool.as_ref().and_then(|p| p.algs.get(a)) {
        return x.clone();
    }
    let x = Arc::new(lib::Alg { nodes: a.0.iter().map(|n| node_in(n, pool)).collect() });
    if let Some(p) = pool {
        p.algs.insert(a.clone(), x.clone());
    }
    x
}
pub fn node_to_lib(n: &MNode) -> lib::AlgNode {
    node_in(n, &mut pool_for(n))
}
pub fn to_lib(a: &MAlg) -> lib::Alg {
    let mut pool = pool_for(a);
    lib::Alg { nodes: a.0.iter().map(|n| node_in(n, &mut pool)).collect() }
}
pub fn node_from_lib(n: &lib::AlgNode) -> MNode {
    match n {
        lib::AlgNode::MoveNode(m) => MNode::Move(move_from_lib(m)),
        lib::AlgNode::PauseNode(_) => MNode::Pause,
        lib::AlgNode::NewlineNode(_) => MNode::Newline,
        lib::AlgNode::LineCommentNode(t) => MNode::Comment(t.text().to_owned()),
        lib::AlgNode::GroupingNode(g) => MNode::Group(from_lib(&g.alg), g.amount),
        lib::AlgNode::CommutatorNode(c) => MNode::Comm(from_lib(&c.a), from_lib(&c.b)),
        lib::AlgNode::ConjugateNode(c) => MNode::Conj(from_lib(&c.a), from_lib(&c.b)),
    }
}
pub fn from_lib(a: &lib::Alg) -> MAlg {
    MAlg(a.nodes.iter().map(node_from_lib).collect())
}
