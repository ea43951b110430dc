//! The generated-input engine: every random choice of a case is drawn from a byte tape, so that a
//! case is replayed from its tape and shrunk by editing the tape (as in Hypothesis).
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err(format!($($arg)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}\n      got: {:?}\n expected: {:?}", format!($($arg)*), a, b)); }
    }};
}

// ---------------------------------------------------------------------------------------------
// Deterministic hash maps: std's RandomState asks getrandom(2) once per thread. Every case runs in
// a fresh thread, and the "random" bytes are a function of the case's tape, so that iteration
// orders inside the code under test are part of the generated input.

static HASH_SEED: AtomicU64 = AtomicU64::new(0x5eed);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = HASH_SEED.load(Ordering::Relaxed);
    for i in 0..len {
        *buf.add(i) = (splitmix(&mut x) >> 24) as u8;
    }
    len as isize
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        splitmix(&mut x)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of(h: impl Hash) -> u64 {
    let mut f = Fnv(0xcbf29ce484222325);
    h.hash(&mut f);
    f.finish()
}

// ---------------------------------------------------------------------------------------------
// The tape.

pub const MAX_TAPE: usize = 1 << 20;

/// Memory shared with the supervisor, which reads it when the worker dies.
#[repr(C)]
pub struct Shared {
    pub sub: u64,
    pub case: u64,
    pub progress: u64,
    pub msg_len: u64,
    pub msg: [u8; 4096],
    pub tape_len: u64,
    pub tape: [u8; MAX_TAPE],
}

pub static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

pub fn shared_note(msg: &[u8]) {
    let p = SHARED.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe {
            let n = msg.len().min(4096);
            std::ptr::copy_nonoverlapping(msg.as_ptr(), (*p).msg.as_mut_ptr(), n);
            (*p).msg_len = n as u64;
        }
    }
}

pub struct Src {
    tape: Vec<u8>,
    pos: usize,
    rng: Option<u64>,
    /// What was drawn takes much longer than usual: not to be varied in thousands of further cases.
    pub heavy: bool,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { tape: Vec::with_capacity(256), pos: 0, rng: Some(seed), heavy: false }
    }
    pub fn replay(tape: &[u8]) -> Src {
        Src { tape: tape.to_vec(), pos: 0, rng: None, heavy: false }
    }
    /// Reads a given beginning, then continues at random.
    pub fn guided(beginning: &[u8], seed: u64) -> Src {
        Src { tape: beginning.to_vec(), pos: 0, rng: Some(seed), heavy: false }
    }
    pub fn tape(&self) -> &[u8] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    #[inline]
    pub fn byte(&mut self) -> u8 {
        if self.pos < self.tape.len() {
            self.pos += 1;
            return self.tape[self.pos - 1];
        }
        match &mut self.rng {
            Some(x) if self.tape.len() < MAX_TAPE => {
                let b = (splitmix(x) >> 32) as u8;
                self.tape.push(b);
                self.pos += 1;
                let p = SHARED.load(Ordering::Relaxed);
                if !p.is_null() {
                    unsafe {
                        (*p).tape[self.pos - 1] = b;
                        (*p).tape_len = self.pos as u64;
                    }
                }
                b
            }
            _ => 0,
        }
    }
    /// Uniform (nearly) in 0..n. 0 is the simplest.
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let bytes = if n <= 1 << 6 {
            1
        } else if n <= 1 << 14 {
            2
        } else if n <= 1 << 30 {
            4
        } else {
            8
        };
        let mut v: u64 = 0;
        for _ in 0..bytes {
            v = (v << 8) | self.byte() as u64;
        }
        v % n
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// Index chosen by weight; the first is the simplest.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut x = self.below(total as u64) as u32;
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.usize(i + 1);
            xs.swap(i, j);
        }
    }
    /// A size: usually small, sometimes up to `max`.
    pub fn size(&mut self, typical: usize, max: usize) -> usize {
        match self.weighted(&[12, 3, 1]) {
            0 => self.usize(typical.min(max) + 1),
            1 => self.usize((typical * 3).min(max) + 1),
            _ => self.usize(max + 1),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Cases.

pub struct Case {
    pub s: Src,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub key: Option<u64>,
    pub desc: Option<String>,
    pub want_desc: bool,
    pub verbose: bool,
    /// Case index (enumerations only look at the tape).
    pub evals: u64,
    pub tier_thorough: bool,
    /// Not after many other operations: what those reach would pass for what the case reaches.
    pub fresh: bool,
}

impl Case {
    pub fn new(s: Src) -> Case {
        Case {
            s,
            labels: vec![],
            nontrivial: false,
            key: None,
            desc: None,
            want_desc: false,
            verbose: false,
            evals: 1,
            tier_thorough: false,
            fresh: false,
        }
    }
    /// What a further case saw, as part of this one.
    fn join(&mut self, second: Case) {
        self.label("two similar cases in one thread");
        second.labels.iter().for_each(|l| self.label(l));
        self.nontrivial |= second.nontrivial;
        self.key = Some(hash_of((self.key, second.key)));
        self.evals += second.evals;
        if let (Some(d), Some(e)) = (&mut self.desc, second.desc) {
            d.push_str("\n then ");
            d.push_str(&e);
        }
        self.s.heavy |= second.s.heavy;
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// What makes this case distinct from others.
    pub fn key(&mut self, h: impl Hash) {
        let prev = self.key.unwrap_or(0);
        self.key = Some(hash_of((prev, h)));
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc || self.verbose {
            let mut d = f();
            if self.verbose {
                println!("{}", d);
            }
            if let Some((at, _)) = d.char_indices().nth(4_000) {
                d.truncate(at);
                d.push('…');
            }
            match &mut self.desc {
                Some(x) => {
                    x.push('\n');
                    x.push_str(&d)
                }
                None => self.desc = Some(d),
            }
        }
    }
}

pub enum Kind {
    /// `quick` and `thorough` numbers of random cases.
    Random { quick: u64, thorough: u64 },
    /// A finite space, enumerated completely: the index is drawn with `below(total)`-compatible bytes.
    Enum { quick: u64, thorough: u64 },
}

pub struct Sub {
    pub name: &'static str,
    pub kind: Kind,
    pub run: fn(&mut Case) -> R,
}

impl Sub {
    pub fn random(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> R) -> Sub {
        Sub { name, kind: Kind::Random { quick, thorough }, run }
    }
    pub fn enumerate(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> R) -> Sub {
        Sub { name, kind: Kind::Enum { quick, thorough }, run }
    }
    pub fn count(&self, thorough: bool, scale: f64) -> u64 {
        match self.kind {
            Kind::Random { quick, thorough: t } => ((if thorough { t } else { quick }) as f64 * scale).ceil() as u64,
            Kind::Enum { quick, thorough: t } => {
                if thorough {
                    t
                } else {
                    quick
                }
            }
        }
    }
    pub fn is_enum(&self) -> bool {
        matches!(self.kind, Kind::Enum { .. })
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

/// The index of an enumerated case.
pub fn enum_index(c: &mut Case) -> u64 {
    let mut v = 0u64;
    for _ in 0..5 {
        v = (v << 8) | c.s.byte() as u64;
    }
    v
}
pub fn enum_tape(i: u64) -> Vec<u8> {
    let mut t = vec![i as u8]; // the hash seed
    t.extend(&i.to_be_bytes()[3..]);
    t
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, k: u64) -> u64 {
    hash_of((seed, prop, sub, k))
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| crate::alloc::unguarded(|| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_owned()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("panic at {}: {}", loc, msg);
        shared_note(full.as_bytes());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(full));
    })));
}

/// Runs code that may panic; the panic becomes an Err with its message.
pub fn catches<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            // A refused operation inside the library may leave its tracking flag set.
            Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".to_owned()))
        }
    }
}

const CASE_STACK: usize = 8 << 20;

pub struct Outcome {
    pub case: Case,
    pub result: R,
}

/// Runs one case in a fresh thread (fresh thread-locals, fresh hash keys).
/// Cases whose first byte is this or more are followed by a similar case in the same thread: what is
/// kept from one to the next (in the code under test) must not show.
const TWICE: u8 = 240;
/// Those from this on (and below `TWICE`) are so after many other operations in that thread.
const WEATHERED: u8 = 238;

/// The tape of a second case, from the first one's.
fn nearly_the_same(s: &mut Src) -> Vec<u8> {
    let mut t = s.tape()[1..].to_vec();
    for _ in 0..s.usize(5) {
        if t.is_empty() {
            break;
        }
        let at = s.usize(t.len());
        let b = s.byte();
        match s.usize(4) {
            0 => t[at] = t[at].wrapping_add(1),
            1 => t[at] = t[at].wrapping_sub(1),
            _ => t[at] = b,
        }
    }
    t
}

pub fn run_case(run: fn(&mut Case) -> R, mut case: Case) -> Outcome {
    let hs = case.s.byte();
    HASH_SEED.store(0x1234_0000 + hs as u64, Ordering::Relaxed);
    std::thread::Builder::new()
        .stack_size(CASE_STACK)
        .spawn(move || {
            let once = |case: &mut Case| {
                let r = catches(|| run(case)).unwrap_or_else(Err);
                crate::alloc::reset_thread();
                r
            };
            let mut result = once(&mut case);
            if hs >= if case.fresh { TWICE } else { WEATHERED } && result.is_ok() && !case.s.heavy {
                let after = if hs >= TWICE { "" } else { ", after many other operations" };
                if hs < TWICE {
                    crate::props::weather::weather(&mut case.s);
                    crate::alloc::reset_thread();
                    case.label("after many other operations in the thread");
                }
                let mut second = Case::new(Src::replay(&nearly_the_same(&mut case.s)));
                second.tier_thorough = case.tier_thorough;
                second.verbose = case.verbose;
                second.want_desc = case.want_desc;
                result = once(&mut second).map_err(|e| format!("{} (in the second of two similar cases in one thread{})", e, after));
                case.join(second);
            }
            Outcome { case, result }
        })
        .expect("spawn")
        .join()
        .expect("join")
}

// ---------------------------------------------------------------------------------------------
// Shrinking.

/// Deletes, zeroes and lowers bytes while `fails` stays true. `fails` returns the tape actually consumed.
pub fn shrink(mut best: Vec<u8>, budget: usize, mut fails: impl FnMut(&[u8]) -> Option<Vec<u8>>) -> Vec<u8> {
    let mut left = budget;
    fn better(a: &[u8], b: &[u8]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u8> = $cand;
            if left > 0 && better(&cand, &best) {
                left -= 1;
                match fails(&cand) {
                    Some(used) => {
                        best = if used.len() <= cand.len() { used } else { cand };
                        // trailing zeros are implied
                        while best.last() == Some(&0) {
                            best.pop();
                        }
                        true
                    }
                    None => false,
                }
            } else {
                false
            }
        }};
    }
    loop {
        let before = best.clone();
        let mut n = best.len() / 2;
        while n > 0 {
            let c = best[..best.len() - n.min(best.len())].to_vec();
            if !attempt!(c) {
                n /= 2;
            } else {
                n = n.min(best.len());
            }
        }
        let mut block = best.len().next_power_of_two().min(256);
        while block >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + block).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !attempt!(c) {
                    i += block;
                }
                if left == 0 {
                    break;
                }
            }
            block /= 2;
        }
        let mut block = 16;
        while block >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + block).min(best.len());
                if best[i..end].iter().any(|b| *b != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|b| *b = 0);
                    attempt!(c);
                }
                i += block;
                if left == 0 {
                    break;
                }
            }
            block /= 4;
        }
        let mut i = 0;
        while i < best.len() {
            let b = best[i];
            for cand in [1, b / 2, b.wrapping_sub(8), b.wrapping_sub(1)] {
                if i < best.len() && cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    if attempt!(c) {
                        break;
                    }
                }
            }
            i += 1;
            if left == 0 {
                break;
            }
        }
        if left == 0 || best == before {
            return best;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Coverage-guided generation: tapes that reached something new are kept and varied.

pub struct Guide {
    pub reached: crate::cov::Reached,
    corpus: Vec<Vec<u8>>,
    rng: u64,
}

const KEPT_TAPE: usize = 1 << 15;
const KEPT: usize = 3000;

impl Guide {
    pub fn new(seed: u64) -> Guide {
        Guide { reached: crate::cov::Reached::new(), corpus: vec![], rng: seed }
    }
    fn below(&mut self, n: usize) -> usize {
        (splitmix(&mut self.rng) >> 33) as usize % n.max(1)
    }
    pub fn kept(&self) -> usize {
        self.corpus.len()
    }
    /// The beginning of the next case's tape; empty for an entirely random one.
    pub fn next(&mut self) -> Vec<u8> {
        if self.corpus.is_empty() || self.below(4) == 0 {
            return vec![];
        }
        let n = self.corpus.len();
        let i = if self.below(2) == 0 { n - 1 - self.below(n.min(40)) } else { self.below(n) };
        let mut t = self.corpus[i].clone();
        let edits = self.below(4);
        for _ in 0..1 << edits {
            let at = self.below(t.len() + 1);
            let most = self.below(6);
            let len = 1 + self.below(1 << most);
            match self.below(12) {
                0..=2 if at < t.len() => t[at] = splitmix(&mut self.rng) as u8,
                3 if at < t.len() => t[at] = t[at].wrapping_add(1 + self.below(3) as u8),
                4 if at < t.len() => t[at] = t[at].wrapping_sub(1 + self.below(3) as u8),
                5 if at < t.len() => t[at] = (self.below(5) * 64).saturating_sub(1) as u8,
                6 => {
                    let mut x: Vec<u8> = vec![];
                    for _ in 0..len {
                        x.push(splitmix(&mut self.rng) as u8);
                    }
                    t.splice(at..at, x);
                }
                7 => {
                    let end = (at + len).min(t.len());
                    t.drain(at..end);
                }
                8 => {
                    // A part again.
                    let from = self.below(t.len() + 1);
                    let x = t[from..(from + len).min(t.len())].to_vec();
                    t.splice(at..at, x);
                }
                9 | 10 => {
                    // A part of another tape, in place of what is there or in between.
                    let j = self.below(n);
                    let from = if self.below(2) == 0 { at } else { self.below(self.corpus[j].len() + 1) };
                    let from = from.min(self.corpus[j].len());
                    let x = self.corpus[j][from..(from + 4 * len).min(self.corpus[j].len())].to_vec();
                    let end = if self.below(2) == 0 { (at + x.len()).min(t.len()) } else { at };
                    t.splice(at..end, x);
                }
                // Goes on at random from here.
                _ => t.truncate(at),
            }
        }
        t.truncate(KEPT_TAPE);
        t
    }
    /// After the case.
    pub fn learn(&mut self, s: &Src) {
        let tape = s.tape();
        let (edges, values) = self.reached.end();
        if !s.heavy && (edges > 0 || values > 0) && tape.len() <= KEPT_TAPE && self.corpus.len() < KEPT {
            self.corpus.push(tape.to_vec());
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Statistics of a worker.

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<(String, String)>,
    pub per_sub: BTreeMap<String, u64>,
    pub edges: Vec<u8>,
    pub kept: u64,
}

impl Stats {
    pub fn add(&mut self, sub: &str, case: &Case) {
        self.evaluations += case.evals;
        *self.per_sub.entry(sub.to_owned()).or_default() += case.evals;
        if case.nontrivial {
            self.nontrivial += 1;
            let k = case.key.unwrap_or_else(|| hash_of(case.s.tape()));
            self.distinct.insert(hash_of((sub, k)));
        }
        for l in &case.labels {
            *self.labels.entry((*l).to_owned()).or_default() += 1;
        }
        if let Some(d) = &case.desc {
            let mut d = d.clone();
            if d.len() > 700 {
                let mut n = 700;
                while !d.is_char_boundary(n) {
                    n -= 1;
                }
                d.truncate(n);
                d.push('…');
            }
            self.samples.push((sub.to_owned(), d));
        }
    }
}

/// Shared and sent whatever the compiler thinks; whether the types allow it is asked by C20.
pub struct Any<T>(pub T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}
impl<T> Any<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
    pub fn take(self) -> T {
        self.0
    }
}
