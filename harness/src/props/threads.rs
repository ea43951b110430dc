//! C20: sharing between threads.
use crate::engine::*;
use crate::gen::alg as ga;
use crate::gen::puz as gp;
use crate::gen::puz::PuzzleParams;
use crate::model::alg::*;
use crate::model::puz::*;
use crate::supervisor::{custom_failure, self_cmd, Opts, Run};
use crate::{ensure, ensure_eq};
use cubing::alg::*;
use cubing::kpuzzle::*;
use cubing::puzzles::{cube2x2x2_kpuzzle, cube3x3x3_kpuzzle};
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::Duration;

// ------------------------------------------------------------------------------------ Send and Sync

// Asks at run time whether a type is Send or Sync (so that a type that is not does not stop the
// harness from building): the inherent constant is found first where its bound holds.
trait Otherwise {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct AskSend<T: ?Sized>(std::marker::PhantomData<T>);
struct AskSync<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized> Otherwise for AskSend<T> {}
impl<T: ?Sized> Otherwise for AskSync<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send> AskSend<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Sync> AskSync<T> {
    const SYNC: bool = true;
}
macro_rules! ask {
    ($($t:ty),* $(,)?) => {
        vec![$((stringify!($t), <AskSend<$t>>::SEND, <AskSync<$t>>::SYNC)),*]
    };
}
fn shareable() -> Vec<(&'static str, bool, bool)> {
    ask![
        Alg, Move, AlgNode, Grouping, Commutator, Conjugate, Pause, Newline, LineComment, QuantumMove, MovePrefix, AlgBuilder, KPuzzle, KPattern, KTransformation, KPatternBuffer,
        KTransformationBuffer, KPuzzleDefinition, KPatternData, KTransformationData, KPuzzleOrbitInfo, KPuzzleOrbitName, OrientationWithMod, InvalidAlgError, InvalidDefinitionError, InvalidMoveError, ConversionError,
        AlgParseError,
    ]
}
fn c20_traits(c: &mut Case) -> R {
    let i = enum_index(c) as usize;
    let (name, send, sync) = shareable()[i];
    c.describe(|| format!("{}: Send {}, Sync {}", name, send, sync));
    c.key(name);
    c.nontrivial = true;
    ensure!(send, "{} cannot be sent to another thread", name);
    ensure!(sync, "{} cannot be shared between threads", name);
    // The question is asked rightly.
    let c = ask![std::rc::Rc<u8>, std::cell::Cell<u8>, std::sync::MutexGuard<'static, u8>, u8];
    let c: Vec<(bool, bool)> = c.iter().map(|x| (x.1, x.2)).collect();
    ensure_eq!(c, vec![(false, false), (true, false), (false, true), (true, true)], "harness: Send and Sync of std types");
    Ok(())
}

// ------------------------------------------------------------------------------------ sharing

#[derive(Clone, Debug, Hash)]
enum Task {
    Apply(usize, usize),
    Compose(usize, usize),
    Invert(usize),
    Equal(usize, usize),
    EvalAlg(usize, usize),
    EvalMove(usize, usize),
    PatternAlg(usize, usize),
    Print(usize),
    InvertAlg(usize),
    Parse(usize),
    CloneAlg(usize),
    Build(usize),
    Default(usize),
    Data(usize, usize),
    Buffer(usize, Vec<usize>),
    BadIndex(usize),
    BadData(usize),
    Static(bool),
    Handle(usize),
    /// Looks up an orbit (by its place), several times.
    Lookup(usize, usize),
    FromJson(usize, usize, usize),
    Show(usize, usize, usize),
    Definition(usize),
    ParseMove(usize),
    BuildAlg(usize, usize),
    Traverse(usize),
    /// Hands a clone to whichever thread comes next, and takes one.
    PassPattern(usize),
    PassTrans(usize),
    PassAlg(usize),
    PassPuzzle(usize),
}

struct World {
    models: Vec<MPuzzle>,
    puzzles: Vec<KPuzzle>,
    pats: Vec<(usize, KPattern)>,
    trs: Vec<(usize, KTransformation)>,
    algs: Vec<(usize, Alg)>,
    moves: Vec<(usize, Move)>,
    texts: Vec<String>,
}
enum Item {
    P(KPattern),
    T(KTransformation),
    A(Alg),
    K(KPuzzle),
}

fn digest_p(p: &KPattern) -> u64 {
    hash_of(pattern_from_lib(p))
}
fn digest_t(t: &KTransformation) -> u64 {
    hash_of(trans_from_lib(t))
}
fn digest_k(k: &KPuzzle) -> u64 {
    let d = def_from_lib(k.definition());
    let o: Vec<(String, u8, u8)> = k.orbit_info_iter().map(|o| (o.name.0.clone(), o.num_pieces, o.num_orientations)).collect();
    hash_of((d, o))
}
fn digest_item(i: &Item) -> u64 {
    match i {
        Item::P(p) => digest_p(p),
        Item::T(t) => digest_t(t),
        Item::A(a) => hash_of(a.to_string()),
        Item::K(k) => digest_k(k),
    }
}
fn result<E: std::fmt::Display>(r: Result<u64, E>) -> u64 {
    match r {
        Ok(x) => x,
        Err(e) => hash_of(("error", e.to_string())),
    }
}

impl World {
    /// What the task gives; the same for everyone at any time.
    fn run(&self, t: &Task, pool: Option<&Mutex<Vec<Any<(Item, u64)>>>>) -> Result<u64, String> {
        let pass = |i: Item, d: u64| -> Result<u64, String> {
            let Some(pool) = pool else { return Ok(d) };
            let other = {
                let mut p = pool.lock().unwrap();
                p.push(Any((i, d)));
                let n = p.len();
                if n > 3 {
                    let k = (d as usize) % n;
                    Some(p.swap_remove(k))
                } else {
                    None
                }
            };
            if let Some(x) = other {
                let (i, want) = x.take();
                ensure!(digest_item(&i) == want, "a value passed from another thread changed");
            }
            Ok(d)
        };
        Ok(match t {
            Task::Apply(a, b) => digest_p(&self.pats[*a].1.apply_transformation(&self.trs[*b].1)),
            Task::Compose(a, b) => digest_t(&self.trs[*a].1.apply_transformation(&self.trs[*b].1)),
            Task::Invert(a) => digest_t(&self.trs[*a].1.invert()),
            Task::Equal(a, b) => {
                let mut h = Fnv(0xcbf29ce484222325);
                self.pats[*a].1.hash(&mut h);
                hash_of((self.pats[*a].1 == self.pats[*b].1, h.finish()))
            }
            Task::EvalAlg(p, a) => result(self.puzzles[*p].transformation_from_alg(&self.algs[*a].1).map(|t| digest_t(&t))),
            Task::EvalMove(p, m) => result(self.puzzles[*p].transformation_from_move(&self.moves[*m].1).map(|t| digest_t(&t))),
            Task::PatternAlg(p, a) => result(self.pats[*p].1.apply_alg(&self.algs[*a].1).map(|t| digest_p(&t))),
            Task::Print(a) => hash_of(self.algs[*a].1.to_string()),
            Task::InvertAlg(a) => hash_of(self.algs[*a].1.invert().to_string()),
            Task::Parse(t) => match self.texts[*t].parse::<Alg>() {
                Ok(a) => hash_of((a.to_string(), self.algs.iter().map(|(_, x)| *x == a).collect::<Vec<_>>())),
                Err(_) => 1,
            },
            Task::CloneAlg(a) => {
                let x = self.algs[*a].1.clone();
                let y = x.clone();
                drop(x);
                hash_of((y == self.algs[*a].1, y.to_string()))
            }
            Task::Build(p) => match KPuzzle::try_new(def_to_lib(&self.models[*p])) {
                Ok(k) => digest_k(&k),
                Err(e) => hash_of(e.to_string()),
            },
            Task::Default(p) => digest_p(&self.puzzles[*p].default_pattern()) ^ digest_t(&self.puzzles[*p].identity_transformation()),
            Task::Data(a, b) => {
                let (p, x) = &self.pats[*a];
                let (q, y) = &self.trs[*b];
                let x2 = KPattern::try_from_data(&self.puzzles[*p], &x.to_data()).map(|x| digest_p(&x));
                let y2 = KTransformation::try_from_data(&self.puzzles[*q], &y.to_data()).map(|x| digest_t(&x));
                hash_of((result(x2), result(y2)))
            }
            Task::Buffer(a, ts) => {
                let mut b = KPatternBuffer::from(self.pats[*a].1.clone());
                for t in ts {
                    b.apply_transformation(&self.trs[*t].1);
                }
                digest_p(b.current())
            }
            Task::BadIndex(a) => {
                let (_, x) = &self.pats[*a];
                let mut y = x.clone();
                let k = x.kpuzzle().clone();
                let r = k.orbit_info_iter().next().map(|o| catches(|| y.set_piece(o, o.num_pieces, 0)).is_err());
                hash_of((r, digest_p(&y)))
            }
            Task::BadData(p) => {
                let k = &self.puzzles[*p];
                let r = (
                    KPattern::try_from_json(k, b"{").is_err(),
                    KTransformation::try_from_json(k, b"[1").is_err(),
                    k.transformation_from_move(&"NoSuchMoveHere".parse::<Move>().map_err(|_| "move refused")?).is_err(),
                );
                hash_of(r)
            }
            Task::Static(two) => {
                let k = if *two { cube2x2x2_kpuzzle() } else { cube3x3x3_kpuzzle() };
                hash_of((k as *const KPuzzle as usize, k.orbit_info_iter().count(), &k.definition().name))
            }
            Task::Handle(p) => {
                let k = self.puzzles[*p].clone();
                let x = k.identity_transformation();
                drop(k);
                let k = x.kpuzzle().clone();
                drop(x);
                hash_of(&k.definition().name)
            }
            Task::Lookup(p, i) => {
                let k = &self.puzzles[*p];
                let os = &self.models[*p].orbits;
                let mut d = vec![];
                if let Some(o) = os.get(*i % os.len().max(1)) {
                    let name = KPuzzleOrbitName(o.name.clone());
                    for _ in 0..40 {
                        let x = k.lookup_orbit(&name).map(|x| (x.name == name, x.num_pieces, x.num_orientations));
                        ensure_eq!(x, Some((true, o.n, o.m)), "lookup of orbit {:?}", o.name);
                    }
                    d.push(o.clone());
                }
                let none = k.lookup_orbit(&KPuzzleOrbitName("no such orbit here".into())).is_none();
                hash_of((d, none))
            }
            Task::FromJson(p, a, t) => {
                let (k, m) = (&self.puzzles[*p], &self.models[*p]);
                let pj = pdata_json(&pattern_data(&m.orbits, &pattern_from_lib(&self.pats[*a].1)), 0);
                let tj = tdata_json(&trans_data(&m.orbits, &trans_from_lib(&self.trs[*t].1)));
                let x = KPattern::try_from_json(k, pj.as_bytes()).map(|x| hash_of((digest_p(&x), x == self.pats[*a].1)));
                let y = KTransformation::try_from_json(k, tj.as_bytes()).map(|x| hash_of((digest_t(&x), x == self.trs[*t].1)));
                hash_of((result(x), result(y)))
            }
            Task::Show(p, a, t) => {
                // The order of orbits varies from one to the next.
                let sorted = |s: String| {
                    let mut c: Vec<char> = s.chars().collect();
                    c.sort_unstable();
                    c
                };
                hash_of((sorted(format!("{:?}", self.pats[*a].1)), sorted(format!("{:?}", self.trs[*t].1)), sorted(format!("{:?}", self.puzzles[*p]))))
            }
            Task::Definition(p) => {
                let text = serde_json::to_string(self.puzzles[*p].definition()).map_err(|e| e.to_string())?;
                let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                hash_of(v.to_string())
            }
            Task::ParseMove(m) => {
                let text = self.moves[*m].1.to_string();
                let x: Result<Move, _> = text.parse();
                hash_of((text, x.map(|x| x == self.moves[*m].1).ok()))
            }
            Task::BuildAlg(a, m) => {
                let mut b = AlgBuilder::new(Some(&self.algs[*a].1));
                b.push(&AlgNode::MoveNode(self.moves[*m].1.clone()));
                b.push(&self.algs[*a].1);
                hash_of(b.to_alg().to_string())
            }
            Task::Traverse(a) => {
                fn count(a: &Alg) -> u64 {
                    a.nodes
                        .iter()
                        .map(|n| match n {
                            AlgNode::GroupingNode(g) => 1 + count(&g.alg),
                            AlgNode::CommutatorNode(x) => 1 + count(&x.a) + 2 * count(&x.b),
                            AlgNode::ConjugateNode(x) => 1 + count(&x.a) + 3 * count(&x.b),
                            _ => 1,
                        })
                        .sum()
                }
                count(&self.algs[*a].1)
            }
            Task::PassPattern(a) => pass(Item::P(self.pats[*a].1.clone()), digest_p(&self.pats[*a].1))?,
            Task::PassTrans(a) => pass(Item::T(self.trs[*a].1.clone()), digest_t(&self.trs[*a].1))?,
            Task::PassAlg(a) => pass(Item::A(self.algs[*a].1.clone()), hash_of(self.algs[*a].1.to_string()))?,
            Task::PassPuzzle(a) => pass(Item::K(self.puzzles[*a].clone()), digest_k(&self.puzzles[*a]))?,
        })
    }
}

/// Waits until `done` reaches `n`; ends the process if everyone is stuck.
fn wait_all(done: &AtomicUsize, n: usize) {
    let cpu = || unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        (u.ru_utime.tv_sec + u.ru_stime.tv_sec) * 1_000_000 + u.ru_utime.tv_usec + u.ru_stime.tv_usec
    };
    let mut idle = 0;
    let mut last = cpu();
    let mut naps = 0u32;
    while done.load(Ordering::Acquire) < n {
        std::thread::sleep(Duration::from_micros(if naps < 100 { 200 } else { 5_000 }));
        naps += 1;
        if naps > 100 && naps % 600 == 0 {
            let now = cpu();
            // Three seconds (of sleep) with hardly any work done, five times in a row.
            idle = if now - last < 60_000 { idle + 1 } else { 0 };
            last = now;
            if idle >= 5 {
                let msg = b"threads wait for each other forever";
                shared_note(msg);
                unsafe { libc::_exit(crate::alloc::EXIT_ALLOC_VIOLATION) }
            }
        }
    }
}

fn world(c: &mut Case) -> Result<(World, Vec<Task>), String> {
    let s = &mut c.s;
    let mut models = vec![];
    let mut puzzles = vec![];
    for _ in 0..1 + s.usize(2) {
        if s.chance(1, 3) {
            let (m, k) = super::puz::built_in(s.bool());
            models.push(m);
            puzzles.push(k);
        } else {
            let pp = PuzzleParams { max_pieces: *s.pick(&[3u8, 12, 60]), max_moves: 3, conventional: true, derived: true, shadow: false };
            let m = gp::puzzle(s, &pp);
            puzzles.push(super::puz::lib_puzzle(&m)?);
            models.push(m);
        }
    }
    let mut w = World { models, puzzles, pats: vec![], trs: vec![], algs: vec![], moves: vec![], texts: vec![] };
    for i in 0..w.puzzles.len() {
        let (k, m) = (&w.puzzles[i], &w.models[i]);
        for _ in 0..2 {
            w.pats.push((i, pattern_to_lib(k, &m.orbits, &gp::pattern(s, &m.orbits))?));
            w.trs.push((i, trans_to_lib(k, &m.orbits, &gp::trans(s, &m.orbits))?));
            let mut a = gp::puzzle_alg(s, m, 2, 4, 12, true);
            if s.chance(1, 4) {
                gp::spoil(s, m, &mut a);
            }
            w.texts.push(print_alg(&a));
            w.algs.push((i, to_lib(&a)));
            w.moves.push((i, move_to_lib(&gp::known_move(s, m, true))));
        }
        w.pats.push((i, w.puzzles[i].default_pattern()));
    }
    w.texts.push(ga::any_text(s));
    let n = 6 + s.size(14, 60);
    let mut tasks = vec![];
    for _ in 0..n {
        let p = s.usize(w.puzzles.len());
        let of = |s: &mut Src, v: &[usize]| {
            let xs: Vec<usize> = v.iter().enumerate().filter(|(_, q)| **q == p).map(|(i, _)| i).collect();
            *s.pick(&xs)
        };
        let (pp, tp, ap, mp): (Vec<usize>, Vec<usize>, Vec<usize>, Vec<usize>) =
            (w.pats.iter().map(|x| x.0).collect(), w.trs.iter().map(|x| x.0).collect(), w.algs.iter().map(|x| x.0).collect(), w.moves.iter().map(|x| x.0).collect());
        let (a, b, t, u, g) = (of(s, &pp), of(s, &pp), of(s, &tp), of(s, &tp), of(s, &ap));
        tasks.push(match s.usize(30) {
            0 => Task::Apply(a, t),
            1 => Task::Compose(t, u),
            2 => Task::Invert(t),
            3 => Task::Equal(a, b),
            4 => Task::EvalAlg(p, g),
            5 => Task::EvalMove(p, of(s, &mp)),
            6 => Task::PatternAlg(a, g),
            7 => Task::Print(g),
            8 => Task::InvertAlg(g),
            9 => Task::Parse(s.usize(w.texts.len())),
            10 => Task::CloneAlg(g),
            11 => Task::Build(p),
            12 => Task::Default(p),
            13 => Task::Data(a, t),
            14 => {
                let n = s.usize(12);
                Task::Buffer(a, (0..n).map(|_| of(s, &tp)).collect())
            }
            15 => Task::BadIndex(a),
            16 => Task::BadData(p),
            17 => Task::Static(s.bool()),
            18 => Task::Handle(p),
            19 => Task::PassPattern(a),
            20 => Task::PassTrans(t),
            22 => Task::Lookup(p, s.usize(8)),
            23 => Task::FromJson(p, a, t),
            24 => Task::Show(p, a, t),
            25 => Task::Definition(p),
            26 => Task::ParseMove(of(s, &mp)),
            27 => Task::BuildAlg(g, of(s, &mp)),
            28 => Task::Traverse(g),
            21 => Task::PassAlg(g),
            _ => Task::PassPuzzle(p),
        });
    }
    Ok((w, tasks))
}

fn c20_share(c: &mut Case) -> R {
    let (w, tasks) = world(c)?;
    let rounds = 1 + c.s.usize(6);
    let threads = 2 + c.s.usize(7);
    c.describe(|| {
        let ps: Vec<String> = w.models.iter().map(super::puz::brief).collect();
        format!("{} threads, {} rounds of {:?} over {:?}", threads, rounds, tasks, ps)
    });
    c.key(format!("{:?} {} {}", tasks, threads, w.texts.join("|")));
    c.nontrivial_if(tasks.len() >= 6);
    // What one thread sees.
    let alone: Vec<u64> = tasks.iter().map(|t| w.run(t, None)).collect::<Result<_, _>>()?;
    let world = Any(w);
    let pool: Mutex<Vec<Any<(Item, u64)>>> = Mutex::new(vec![]);
    let barrier = Barrier::new(threads);
    let done = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let seeds: Vec<u64> = (0..threads).map(|_| c.s.below(1 << 20)).collect();
    std::thread::scope(|sc| {
        for seed in seeds {
            let (world, pool, barrier, done, stop, errors, tasks, alone) = (&world, &pool, &barrier, &done, &stop, &errors, &tasks, &alone);
            sc.spawn(move || {
                barrier.wait();
                let r = catches(|| {
                    let mut order: Vec<usize> = (0..tasks.len()).collect();
                    let mut x = seed;
                    for round in 0..rounds {
                        // Half of the time everyone does the same things at the same time.
                        if (seed + round as u64) % 2 == 1 {
                            for i in (1..order.len()).rev() {
                                let j = (splitmix(&mut x) % (i as u64 + 1)) as usize;
                                order.swap(i, j);
                            }
                        }
                        for &i in &order {
                            if stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            let got = world.get().run(&tasks[i], Some(pool))?;
                            ensure!(got == alone[i], "{:?} gives another result in a thread than alone", tasks[i]);
                        }
                    }
                    Ok(())
                });
                if let Err(e) | Ok(Err(e)) = r {
                    stop.store(true, Ordering::Relaxed);
                    if let Ok(mut l) = errors.lock() {
                        l.push(e);
                    }
                }
                done.fetch_add(1, Ordering::Release);
            });
        }
        wait_all(&done, threads);
    });
    if let Some(e) = errors.into_inner().unwrap().into_iter().next() {
        return Err(e);
    }
    // What is left in the pool, and what one thread sees afterwards.
    for x in pool.into_inner().unwrap() {
        let (i, want) = x.take();
        ensure!(digest_item(&i) == want, "a value passed by a thread changed");
    }
    let w = world.take();
    for (t, want) in tasks.iter().zip(&alone) {
        ensure!(w.run(t, None)? == *want, "{:?} gives another result after the threads than before", t);
    }
    Ok(())
}

/// Every thread repeats one operation of its own on the shared values.
fn c20_hammer(c: &mut Case) -> R {
    let (w, tasks) = world(c)?;
    let reps = 20 + c.s.usize(100);
    let threads = 2 + c.s.usize(7);
    // Kin: the same operation with other arguments.
    let mut mine: Vec<Task> = vec![];
    let first = c.s.usize(tasks.len());
    let kind = std::mem::discriminant(&tasks[first]);
    let kin: Vec<&Task> = tasks.iter().filter(|t| std::mem::discriminant(*t) == kind).collect();
    let alike = c.s.bool();
    for _ in 0..threads {
        let t = if alike { (*c.s.pick(&kin)).clone() } else { c.s.pick(&tasks).clone() };
        mine.push(match t {
            Task::Lookup(p, _) => Task::Lookup(p, c.s.usize(8)),
            t => t,
        });
    }
    c.describe(|| {
        let ps: Vec<String> = w.models.iter().map(super::puz::brief).collect();
        format!("{} threads repeat {} times {:?} over {:?}", threads, reps, mine, ps)
    });
    c.key(format!("{:?} {} {}", mine, reps, w.texts.join("|")));
    c.nontrivial_if(mine.iter().any(|t| hash_of(t) != hash_of(&mine[0])));
    c.label_if(alike, "one kind of operation");
    let alone: Vec<u64> = mine.iter().map(|t| w.run(t, None)).collect::<Result<_, _>>()?;
    let world = Any(w);
    let barrier = Barrier::new(threads);
    let done = AtomicUsize::new(0);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for (t, want) in mine.iter().zip(&alone) {
            let (world, barrier, done, errors) = (&world, &barrier, &done, &errors);
            sc.spawn(move || {
                barrier.wait();
                let r = catches(|| {
                    for _ in 0..reps {
                        let got = world.get().run(t, None)?;
                        ensure!(got == *want, "{:?} gives another result in a thread than alone", t);
                    }
                    Ok(())
                });
                if let Err(e) | Ok(Err(e)) = r {
                    if let Ok(mut l) = errors.lock() {
                        l.push(e);
                    }
                }
                done.fetch_add(1, Ordering::Release);
            });
        }
        wait_all(&done, threads);
    });
    match errors.into_inner().unwrap().into_iter().next() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// Values whose last owners are in different threads: made, cloned and dropped in a storm.
fn c20_drop(c: &mut Case) -> R {
    let pp = PuzzleParams { max_pieces: 12, max_moves: 2, conventional: true, derived: false, shadow: false };
    let m = gp::puzzle(&mut c.s, &pp);
    let threads = 2 + c.s.usize(7);
    let n = 20 + c.s.usize(200);
    let a = gp::puzzle_alg(&mut c.s, &m, 3, 4, 12, true);
    c.describe(|| format!("{} threads drop {} owners each of {:?} and of a puzzle {}", threads, n, print_alg(&a), super::puz::brief(&m)));
    c.key((threads, n, print_alg(&a), super::puz::brief(&m)));
    c.nontrivial = true;
    let k = super::puz::lib_puzzle(&m)?;
    let alg = to_lib(&a);
    let (want_k, want_a) = (digest_k(&k), hash_of(alg.to_string()));
    let t = trans_to_lib(&k, &m.orbits, &gp::trans(&mut c.s, &m.orbits))?;
    let want_t = digest_t(&t);
    let barrier = Barrier::new(threads);
    let done = AtomicUsize::new(0);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let mut lots: Vec<Any<(KPuzzle, Alg, KTransformation)>> = (1..threads).map(|_| Any((k.clone(), alg.clone(), t.clone()))).collect();
    lots.push(Any((k, alg, t)));
    std::thread::scope(|sc| {
        for lot in lots {
            let (barrier, done, errors) = (&barrier, &done, &errors);
            sc.spawn(move || {
                let (k, a, t) = lot.take();
                barrier.wait();
                let r = catches(|| {
                    let mut ks = vec![];
                    for i in 0..n {
                        let x = t.clone();
                        ks.push((k.clone(), a.clone()));
                        if i % 3 == 0 {
                            ks.clear();
                        }
                        drop(x);
                    }
                    drop(ks);
                    ensure!(digest_k(&k) == want_k && hash_of(a.to_string()) == want_a && digest_t(&t) == want_t, "a value changed while other threads cloned and dropped it");
                    drop(k);
                    ensure!(digest_t(&t) == want_t, "a transformation changed when its puzzle's handle was dropped");
                    drop(a);
                    drop(t);
                    Ok(())
                });
                if let Err(e) | Ok(Err(e)) = r {
                    if let Ok(mut l) = errors.lock() {
                        l.push(e);
                    }
                }
                done.fetch_add(1, Ordering::Release);
            });
        }
        wait_all(&done, threads);
    });
    match errors.into_inner().unwrap().into_iter().next() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------------------------ first use

/// In a fresh process: many threads ask for the built-in puzzles for the first time at once.
pub fn helper_statics(seed: u64) -> i32 {
    let threads = 2 + (seed % 7) as usize;
    let barrier = Barrier::new(threads);
    let out: Mutex<Vec<(usize, usize, u64)>> = Mutex::new(vec![]);
    let done = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for i in 0..threads {
            let (barrier, out, done) = (&barrier, &out, &done);
            sc.spawn(move || {
                let mut x = seed ^ i as u64;
                let swap = splitmix(&mut x) % 2 == 1;
                barrier.wait();
                let (a, b) = if swap {
                    let b = cube2x2x2_kpuzzle();
                    (cube3x3x3_kpuzzle(), b)
                } else {
                    let a = cube3x3x3_kpuzzle();
                    (a, cube2x2x2_kpuzzle())
                };
                let alg: Alg = "[R: U] x y'".parse().unwrap();
                let d = hash_of((
                    a.transformation_from_alg(&alg).map(|t| digest_t(&t)).ok(),
                    b.transformation_from_alg(&alg).map(|t| digest_t(&t)).ok(),
                    digest_p(&a.default_pattern()),
                    digest_p(&b.default_pattern()),
                ));
                out.lock().unwrap().push((a as *const KPuzzle as usize, b as *const KPuzzle as usize, d));
                done.fetch_add(1, Ordering::Release);
            });
        }
        wait_all(&done, threads);
    });
    let mut o = out.into_inner().unwrap();
    // Once more, alone.
    let (a, b) = (cube3x3x3_kpuzzle(), cube2x2x2_kpuzzle());
    o.push((a as *const KPuzzle as usize, b as *const KPuzzle as usize, o[0].2));
    if o.len() != threads + 1 {
        println!("a thread gave no answer");
        return 1;
    }
    if o.iter().any(|x| x.0 != o[0].0 || x.1 != o[0].1) {
        println!("callers get different instances of a built-in puzzle");
        return 1;
    }
    if o.iter().any(|x| x.2 != o[0].2) {
        println!("threads see different results on the built-in puzzles");
        return 1;
    }
    0
}
fn statics_once(seed: u64) -> Option<String> {
    let out = self_cmd().args(["helper", "statics"]).arg(seed.to_string()).output().ok()?;
    match out.status.code() {
        Some(0) => None,
        Some(1) => Some(String::from_utf8_lossy(&out.stdout).trim().to_owned()),
        Some(crate::alloc::EXIT_ALLOC_VIOLATION) => Some("threads that use the built-in puzzles for the first time wait for each other forever".into()),
        _ => {
            use std::os::unix::process::ExitStatusExt;
            match out.status.signal() {
                Some(libc::SIGKILL) | Some(libc::SIGTERM) => None,
                _ => Some(format!("the first use of the built-in puzzles by several threads ends with {}: {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>())),
            }
        }
    }
}
pub fn c20_extra(o: &Opts) -> (Option<Run>, Vec<String>) {
    let mut run = Run::new();
    let n = if o.thorough { 20_000 } else { 600 };
    let seed = o.seed.wrapping_mul(1_000_003);
    let got = super::parallel(n, |i| statics_once(seed + i as u64));
    run.evaluations = n as u64;
    run.nontrivial = n as u64;
    run.per_sub.insert("first use of the built-in puzzles, in fresh processes".into(), n as u64);
    for i in 0..n as u64 {
        run.distinct.insert(hash_of(("statics", i)));
    }
    if let Some((i, Some(m))) = got.into_iter().enumerate().find(|x| x.1.is_some()) {
        let v = json!({"property": "C20", "kind": "custom", "what": "statics", "seed": seed + i as u64});
        run.failure = Some(custom_failure("C20", &v, m));
    }
    (Some(run), vec![])
}
pub fn c20_replay(v: &Value) -> i32 {
    let seed = v["seed"].as_u64().unwrap_or(0);
    for i in 0..3000 {
        // The schedule is the system's: the same process is started again and again.
        if let Some(m) = statics_once(seed) {
            println!("fails (attempt {}): {}", i + 1, m);
            return 1;
        }
    }
    println!("holds");
    0
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "Random puzzles, patterns, transformations, algs and texts are shared by 2 to 8 threads that start together and do the same random tasks, in the same and in shuffled orders: every operation, refused ones included, building and dropping puzzles, and handing clones to other threads. Every result must be the one computed beforehand by one thread, and the same afterwards. Owners of the same value are cloned and dropped in a storm. Fresh processes race for the first use of the built-in puzzles: all callers must get the same instance. Public types must be Send and Sync. Non-trivial: six tasks or more; distinct by tasks and texts. Schedules are the operating system's, so a replay runs its case up to 40 times.",
        assumptions: &["Schedules are sampled, not enumerated."],
        subs: vec![
            Sub::enumerate("traits", shareable().len() as u64, shareable().len() as u64, c20_traits),
            Sub::random("shared", 2_500, 50_000, c20_share),
            Sub::random("one operation each", 2_500, 50_000, c20_hammer),
            Sub::random("drops", 2_500, 50_000, c20_drop),
        ],
    }
}
