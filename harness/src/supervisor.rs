//! Runs a property: distributes its cases over worker processes, survives and reports crashes,
//! shrinks failures, writes replay and evidence files.
use crate::alloc::{EXIT_ALLOC_VIOLATION, EXIT_WORK_BOUND};
use crate::engine::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;
/// No progress for this long: the case is run again alone, with a limit on its processor time.
const HANG_SECS: u64 = 60;
/// Cases take milliseconds. One that uses this much processor time alone has failed.
const CPU_SECS: u64 = 60;
const DATA_BYTES: u64 = 3 << 30;

pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub scale: f64,
    pub only_sub: Option<String>,
    /// Guided by coverage, in the build that measures it.
    pub guided: bool,
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VP_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
fn work_dir() -> PathBuf {
    let d = std::env::var("VP_WORK").map(PathBuf::from).unwrap_or_else(|_| verif_dir().join("target/work"));
    std::fs::create_dir_all(&d).ok();
    d
}

pub fn map_shared(path: &Path) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("shm");
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    SHARED.store(p as *mut Shared, Ordering::Relaxed);
}

fn new_shared(path: &Path) {
    let f = std::fs::File::create(path).expect("shm create");
    f.set_len(std::mem::size_of::<Shared>() as u64).expect("shm size");
}

struct SharedView {
    sub: u64,
    case: u64,
    progress: u64,
    msg: String,
    tape: Vec<u8>,
}

fn read_shared(path: &Path) -> SharedView {
    let b = std::fs::read(path).unwrap_or_default();
    let u = |o: usize| u64::from_ne_bytes(b[o..o + 8].try_into().unwrap());
    if b.len() < std::mem::size_of::<Shared>() {
        return SharedView { sub: 0, case: 0, progress: 0, msg: String::new(), tape: vec![] };
    }
    let msg_len = u(24) as usize;
    let msg = String::from_utf8_lossy(&b[32..32 + msg_len.min(4096)]).into_owned();
    let tl = u(32 + 4096) as usize;
    let tape = b[40 + 4096..40 + 4096 + tl.min(MAX_TAPE)].to_vec();
    SharedView { sub: u(0), case: u(8), progress: u(16), msg, tape }
}

fn peek_progress(path: &Path) -> u64 {
    use std::io::{Read, Seek, SeekFrom};
    let mut b = [0u8; 8];
    if let Ok(mut f) = std::fs::File::open(path) {
        let _ = f.seek(SeekFrom::Start(16));
        let _ = f.read_exact(&mut b);
    }
    u64::from_ne_bytes(b)
}

fn set_case(sub: u64, case: u64) {
    let p = SHARED.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe {
            (*p).sub = sub;
            (*p).case = case;
            (*p).progress += 1;
            (*p).msg_len = 0;
            (*p).tape_len = 0;
        }
    }
}
fn set_tape(t: &[u8]) {
    let p = SHARED.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe {
            std::ptr::copy_nonoverlapping(t.as_ptr(), (*p).tape.as_mut_ptr(), t.len());
            (*p).tape_len = t.len() as u64;
        }
    }
}

fn case_for(prop: &Prop, sub: &Sub, k: u64, seed: u64, beginning: &[u8]) -> Case {
    if sub.is_enum() {
        let t = enum_tape(k);
        set_tape(&t);
        Case::new(Src::replay(&t))
    } else {
        set_tape(beginning);
        Case::new(Src::guided(beginning, case_seed(seed, prop.id, sub.name, k)))
    }
}

/// Runs cases w, w+n, … of every sub-check in order, up to and including `last` (or the end), or until one fails.
/// Guided cases depend on what the earlier ones reached, and on nothing else.
fn cases(prop: &Prop, o: &Opts, w: u64, n: u64, last: Option<(&str, u64)>, st: &mut Stats) -> Result<(), (String, u64, String, Vec<u8>)> {
    for (si, sub) in prop.subs.iter().enumerate() {
        if o.only_sub.as_deref().is_some_and(|x| x != sub.name) || o.guided && sub.is_enum() {
            continue;
        }
        let total = sub.count(o.thorough, o.scale);
        let mut guide = Guide::new(case_seed(o.seed, prop.id, sub.name, u64::MAX - w));
        let mut k = w;
        let mut sampled = 0;
        let mut nth = 0u64;
        while k < total {
            set_case(si as u64, k);
            let beginning = if o.guided { guide.next() } else { vec![] };
            let mut case = case_for(prop, sub, k, o.seed, &beginning);
            let at_last = last == Some((sub.name, k));
            case.tier_thorough = o.thorough;
            case.fresh = o.guided;
            // Samples: a few cases of each worker, spread over the run.
            case.want_desc = w == 0 && sampled < 6 && nth % (total / n / 6 + 1) == 0;
            nth += 1;
            if o.guided {
                crate::cov::begin();
            }
            let got = run_case(sub.run, case);
            if o.guided {
                guide.learn(&got.case.s);
            }
            if let Err(e) = got.result {
                return Err((sub.name.to_owned(), k, e, got.case.s.tape().to_vec()));
            }
            if got.case.desc.is_some() {
                sampled += 1;
            }
            st.add(sub.name, &got.case);
            if at_last {
                return Ok(());
            }
            k += n;
        }
        st.kept += guide.kept() as u64;
        let now = guide.reached.edge_bits();
        st.edges.resize(now.len(), 0);
        st.edges.iter_mut().zip(now).for_each(|(a, b)| *a |= b);
    }
    Ok(())
}

/// Worker process: stops at the first failure.
pub fn worker(prop: &Prop, o: &Opts, w: u64, n: u64, out: &Path) -> i32 {
    install_panic_hook();
    let mut st = Stats::default();
    if let Err((sub, k, e, tape)) = cases(prop, o, w, n, None, &mut st) {
        let v = json!({"fail": {"sub": sub, "case": k, "message": e, "tape": hex(&tape)}});
        std::fs::write(out, v.to_string()).ok();
        return 1;
    }
    let v = json!({
        "evaluations": st.evaluations, "nontrivial": st.nontrivial,
        "distinct": st.distinct.iter().collect::<Vec<_>>(),
        "labels": st.labels, "samples": st.samples, "per_sub": st.per_sub,
        "edges": hex(&st.edges), "kept": st.kept,
    });
    std::fs::write(out, v.to_string()).ok();
    0
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// Runs one tape in this process. Exit code 0 or 1.
pub fn one(prop: &Prop, sub_name: &str, tape: &[u8], verbose: bool) -> i32 {
    install_panic_hook();
    let Some(sub) = prop.subs.iter().find(|s| s.name == sub_name) else {
        eprintln!("no sub-check {}", sub_name);
        return 2;
    };
    set_case(0, 0);
    let mut case = Case::new(Src::replay(tape));
    case.verbose = verbose;
    let got = run_case(sub.run, case);
    match got.result {
        Ok(()) => 0,
        Err(e) => {
            if verbose {
                println!("FAILS: {}", e);
            }
            shared_note(e.as_bytes());
            1
        }
    }
}

/// Runs the cases of worker w up to a given one in order (for failures that need the history of the process).
pub fn range(prop: &Prop, o: &Opts, sub_name: &str, w: u64, n: u64, last: u64) -> i32 {
    install_panic_hook();
    match cases(prop, o, w, n, Some((sub_name, last)), &mut Stats::default()) {
        Ok(()) => 0,
        Err((_, _, e, _)) => {
            println!("FAILS: {}", e);
            shared_note(e.as_bytes());
            1
        }
    }
}

/// Shrinks in this process, writing every improvement to `out`.
pub fn shrink_in_process(prop: &Prop, sub_name: &str, tape: Vec<u8>, out: &Path) -> i32 {
    install_panic_hook();
    let sub = prop.subs.iter().find(|s| s.name == sub_name).expect("sub");
    let start = Instant::now();
    shrink(tape, 20_000, |cand| {
        if start.elapsed() > Duration::from_secs(40) {
            return None;
        }
        let got = run_case(sub.run, Case::new(Src::replay(cand)));
        if got.result.is_err() {
            let used = got.case.s.tape().to_vec();
            std::fs::write(out, hex(&used)).ok();
            Some(used)
        } else {
            None
        }
    });
    0
}

/// Which build worker processes are: debug (with debug assertions and overflow checks), release (optimised, without
/// them), or guided (debug, with coverage of the code under test).
static PROFILE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const PROFILES: [&str; 3] = ["debug", "release", "guided"];
fn profile() -> &'static str {
    PROFILES[PROFILE.load(Ordering::Relaxed)]
}
fn set_profile(name: &str) {
    PROFILE.store(PROFILES.iter().position(|p| *p == name).unwrap_or(0), Ordering::Relaxed);
}
pub fn self_cmd() -> Command {
    let mut exe = std::env::current_exe().unwrap();
    // …/target/build/debug/vp and its siblings
    match profile() {
        "release" => exe = exe.parent().unwrap().parent().unwrap().join("release/vp"),
        "guided" => exe = exe.ancestors().nth(3).unwrap().join("guided/x86_64-unknown-linux-gnu/debug/vp"),
        _ => {}
    }
    let mut c = Command::new(exe);
    c.stdin(Stdio::null());
    c
}
/// Runaway memory becomes a failed allocation in the process itself.
fn limit_data(c: &mut Command, cpu: Option<u64>) {
    fixed_addresses(c);
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: DATA_BYTES, rlim_max: DATA_BYTES };
            libc::setrlimit(libc::RLIMIT_DATA, &l);
            if let Some(t) = cpu {
                let l = libc::rlimit { rlim_cur: t, rlim_max: t + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
            }
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
}

/// Addresses are not randomised (where the system allows that): what depends on them can be seen again.
fn fixed_addresses(cmd: &mut Command) {
    use std::os::unix::process::CommandExt;
    unsafe {
        cmd.pre_exec(|| {
            libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
            Ok(())
        });
    }
}

pub enum Child {
    Ok,
    Fail(String),
    /// The child gave no usable answer.
    Error(String),
}

fn classify(st: ExitStatus, shm: &Path) -> Child {
    let note = || read_shared(shm).msg;
    if let Some(sig) = st.signal() {
        if sig == libc::SIGKILL || sig == libc::SIGTERM {
            return Child::Error(format!("killed by signal {}", sig));
        }
        let m = note();
        if sig == libc::SIGXCPU {
            return Child::Fail(format!("no answer after {} s of processor time", CPU_SECS));
        }
        return Child::Fail(format!("the process died with signal {}{}{}", sig, if m.is_empty() { "" } else { ": " }, m));
    }
    match st.code() {
        Some(0) => Child::Ok,
        Some(1) => Child::Fail(note()),
        Some(EXIT_WORK_BOUND) | Some(EXIT_ALLOC_VIOLATION) => Child::Fail(note()),
        Some(101) => Child::Error(format!("harness panic: {}", note())),
        c => Child::Error(format!("exit code {:?}", c)),
    }
}

fn wait_timeout(child: &mut std::process::Child, secs: u64) -> Option<ExitStatus> {
    let start = Instant::now();
    let mut nap = 1;
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            return Some(st);
        }
        if start.elapsed() > Duration::from_secs(secs) {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    }
}

/// Runs one tape in a fresh process.
pub fn one_in_child(prop: &str, sub: &str, tape: &[u8], verbose: bool) -> (Child, String) {
    let dir = work_dir();
    let tag = format!("{}-{}", prop, std::process::id());
    let shm = dir.join(format!("one-{}.shm", tag));
    new_shared(&shm);
    let tf = dir.join(format!("one-{}.tape", tag));
    std::fs::write(&tf, tape).unwrap();
    let of = dir.join(format!("one-{}.out", tag));
    let mut cmd = self_cmd();
    cmd.args(["one", prop, sub]).arg(&tf).arg(&shm);
    if verbose {
        cmd.arg("-v");
    }
    cmd.stdout(std::fs::File::create(&of).unwrap()).stderr(Stdio::null());
    limit_data(&mut cmd, Some(CPU_SECS));
    let mut ch = cmd.spawn().expect("spawn");
    let r = match wait_timeout(&mut ch, 5 * CPU_SECS) {
        None => Child::Error("no answer in time".into()),
        Some(st) => classify(st, &shm),
    };
    let out = String::from_utf8_lossy(&std::fs::read(&of).unwrap_or_default()).into_owned();
    for f in [&shm, &tf, &of] {
        let _ = std::fs::remove_file(f);
    }
    (r, out)
}

const ATTEMPTS: usize = 40;
/// Whether the outcome of a case also depends on how the system schedules threads.
fn depends_on_schedule(prop: &str, sub: &str) -> bool {
    prop == "C20" && sub != "traits"
}
/// Runs one tape in fresh processes until it fails.
fn often_in_child(prop: &str, sub: &str, tape: &[u8]) -> (Child, String) {
    let mut r = one_in_child(prop, sub, tape, true);
    for _ in 1..ATTEMPTS {
        if !matches!(r.0, Child::Ok) {
            break;
        }
        r = one_in_child(prop, sub, tape, true);
    }
    r
}

fn write_replay(prop: &Prop, v: &Value) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let p = dir.join(format!("{}-{:016x}.json", prop.id, hash_of(v.to_string())));
    std::fs::write(&p, serde_json::to_string_pretty(v).unwrap()).ok();
    p
}

pub struct Failure {
    pub replay: PathBuf,
    pub message: String,
}

/// A failure found outside the engine, with its own replay data.
pub fn custom_failure(id: &str, v: &Value, message: String) -> Failure {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let p = dir.join(format!("{}-{:016x}.json", id, hash_of(v.to_string())));
    let mut v = v.clone();
    v["message"] = message.clone().into();
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).ok();
    Failure { replay: p, message }
}

fn handle_failure(prop: &Prop, o: &Opts, w: u64, sub: &str, case: u64, tape: Vec<u8>, message: String) -> Result<Failure, String> {
    eprintln!("[{}] {} case {} failed: {}", prop.id, sub, case, message);
    if o.guided {
        // Whoever replays it need not have the guided build, if the case alone shows it.
        set_profile("debug");
        if !matches!(one_in_child(prop.id, sub, &tape, false).0, Child::Fail(_)) {
            set_profile("guided");
        }
    }
    let (mut first, _) = one_in_child(prop.id, sub, &tape, false);
    let mut best = tape.clone();
    let once = matches!(first, Child::Fail(_));
    let schedule = depends_on_schedule(prop.id, sub);
    if schedule && !once {
        first = often_in_child(prop.id, sub, &tape).0;
    }
    let reproduced = matches!(first, Child::Fail(_));
    if schedule && message != "no answer" && !once {
        // Seen once is seen: the schedule that shows it may be rare.
        let v = json!({"property": prop.id, "kind": "tape", "sub": sub, "tape": hex(&best), "profile": profile(), "message": message, "case": format!("depends on the schedule; {} in {} further attempts", if reproduced { "seen again" } else { "not seen again" }, ATTEMPTS)});
        return Ok(Failure { replay: write_replay(prop, &v), message });
    }
    if !reproduced {
        // State left by earlier cases of the process: the replay is the history.
        let v = json!({"property": prop.id, "kind": "range", "sub": sub, "profile": profile(), "worker": w, "workers": WORKERS,
            "case": case, "seed": o.seed, "thorough": o.thorough, "scale": o.scale, "guided": o.guided, "only": o.only_sub, "message": message});
        if message == "no answer" {
            return Err(format!("no progress in case {} of {}, but it is answered when run alone", case, sub));
        }
        let p = write_replay(prop, &v);
        return match replay(&p) {
            1 => Ok(Failure { replay: p, message }),
            _ => Err(format!("case {} of {} failed once ({}) and cannot be reproduced", case, sub, message)),
        };
    }
    let is_enum = prop.subs.iter().any(|s| s.name == sub && s.is_enum());
    let hang = matches!(&first, Child::Fail(m) if m.starts_with("no answer"));
    if !is_enum && !hang {
        // In-process shrinking first (fast), then one process per candidate if the failure is a crash.
        let dir = work_dir();
        let tf = dir.join(format!("shrink-{}-{}.tape", prop.id, std::process::id()));
        let of = dir.join(format!("shrink-{}-{}.out", prop.id, std::process::id()));
        std::fs::write(&tf, &tape).unwrap();
        let _ = std::fs::remove_file(&of);
        let crash = match &first {
            Child::Fail(m) => m.starts_with("the process died") || m.starts_with("work bound") || m.contains("allocation") || m.contains("released"),
            _ => true,
        };
        if !crash {
            let mut cmd = self_cmd();
            cmd.args(["shrink", prop.id, sub]).arg(&tf).arg(&of).stdout(Stdio::null()).stderr(Stdio::null());
            if let Ok(mut ch) = cmd.spawn() {
                wait_timeout(&mut ch, 120);
            }
            if let Ok(h) = std::fs::read_to_string(&of) {
                let t = unhex(&h);
                if matches!(one_in_child(prop.id, sub, &t, false).0, Child::Fail(_)) {
                    best = t;
                }
            }
        } else {
            let start = Instant::now();
            best = shrink(best, 1500, |cand| {
                if start.elapsed() > Duration::from_secs(40) {
                    return None;
                }
                match one_in_child(prop.id, sub, cand, false).0 {
                    Child::Fail(_) => Some(cand.to_vec()),
                    _ => None,
                }
            });
        }
        let _ = std::fs::remove_file(&tf);
        let _ = std::fs::remove_file(&of);
    }
    let (last, out) = one_in_child(prop.id, sub, &best, true);
    let message = match last {
        Child::Fail(m) if !m.is_empty() => m,
        _ => message,
    };
    let v = json!({"property": prop.id, "kind": "tape", "sub": sub, "tape": hex(&best), "profile": profile(), "message": message, "case": out});
    Ok(Failure { replay: write_replay(prop, &v), message })
}

/// Runs the cases up to the one that failed, or all of the same sub-check, in a fresh process.
fn range_in_child(prop: &str, sub: &str, v: &Value, all: bool) -> Child {
    let shm = work_dir().join(format!("range-{}.shm", std::process::id()));
    new_shared(&shm);
    let mut cmd = self_cmd();
    cmd.args(["range", prop, sub]).arg(&shm).args([
        v["worker"].to_string(),
        v["workers"].to_string(),
        if all { u64::MAX.to_string() } else { v["case"].to_string() },
        v["seed"].to_string(),
        v["thorough"].to_string(),
        v["scale"].to_string(),
        if all { sub } else { v["only"].as_str().unwrap_or("") }.to_owned(),
        v["guided"].to_string(),
    ]);
    cmd.stdout(Stdio::null()).stderr(Stdio::null());
    fixed_addresses(&mut cmd);
    let mut ch = cmd.spawn().expect("spawn");
    let r = match wait_timeout(&mut ch, 150) {
        None => Child::Error("no answer in time".into()),
        Some(st) => classify(st, &shm),
    };
    let _ = std::fs::remove_file(&shm);
    r
}

/// Re-runs a replay file. 1 if it still fails.
pub fn replay(path: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path.display());
        return 2;
    };
    let Ok(v) = serde_json::from_str::<Value>(&text) else {
        eprintln!("not a replay file");
        return 2;
    };
    let prop = v["property"].as_str().unwrap_or("");
    let sub = v["sub"].as_str().unwrap_or("");
    set_profile(v["profile"].as_str().unwrap_or(""));
    match v["kind"].as_str() {
        Some("tape") => {
            let tape = unhex(v["tape"].as_str().unwrap_or(""));
            let (r, out) = if depends_on_schedule(prop, sub) { often_in_child(prop, sub, &tape) } else { one_in_child(prop, sub, &tape, true) };
            print!("{}", out);
            match r {
                Child::Ok => {
                    println!("holds");
                    0
                }
                Child::Fail(m) => {
                    println!("fails: {}", m);
                    1
                }
                Child::Error(m) => {
                    println!("error: {}", m);
                    2
                }
            }
        }
        Some("range") => {
            // What depends on addresses may need another attempt, or show in a later case.
            let start = Instant::now();
            let mut r = range_in_child(prop, sub, &v, false);
            for i in 1..4 {
                if !matches!(r, Child::Ok) || start.elapsed() > Duration::from_secs(200) {
                    break;
                }
                r = range_in_child(prop, sub, &v, i >= 2);
            }
            match r {
                Child::Ok => 0,
                Child::Fail(m) => {
                    println!("fails: {}", m);
                    1
                }
                Child::Error(m) => {
                    println!("error: {}", m);
                    2
                }
            }
        }
        Some("custom") => crate::props::custom_replay(&v),
        _ => 2,
    }
}

pub struct Run {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub per_sub: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub edges: Vec<u8>,
    pub kept: u64,
    pub failure: Option<Failure>,
    pub error: Option<String>,
}

impl Run {
    pub fn new() -> Run {
        Run {
            evaluations: 0,
            nontrivial: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            per_sub: BTreeMap::new(),
            samples: vec![],
            edges: vec![],
            kept: 0,
            failure: None,
            error: None,
        }
    }
}

/// All random and enumerated cases of a property.
pub fn run_cases(prop: &Prop, o: &Opts) -> Run {
    let mut run = Run::new();
    let dir = work_dir();
    let tag = format!("{}-{}", prop.id, std::process::id());
    struct W {
        ch: std::process::Child,
        shm: PathBuf,
        out: PathBuf,
        last: u64,
        since: Instant,
        done: bool,
    }
    let mut ws: Vec<W> = vec![];
    for w in 0..WORKERS {
        let shm = dir.join(format!("{}-{}.shm", tag, w));
        let out = dir.join(format!("{}-{}.out", tag, w));
        new_shared(&shm);
        let _ = std::fs::remove_file(&out);
        let mut cmd = self_cmd();
        cmd.args(["worker", prop.id]).arg(&shm).arg(&out).args([
            w.to_string(),
            WORKERS.to_string(),
            o.seed.to_string(),
            o.thorough.to_string(),
            o.scale.to_string(),
            o.only_sub.clone().unwrap_or_default(),
            o.guided.to_string(),
        ]);
        cmd.stdout(Stdio::null()).stderr(Stdio::null());
        limit_data(&mut cmd, None);
        let ch = cmd.spawn().expect("spawn worker");
        ws.push(W { ch, shm, out, last: 0, since: Instant::now(), done: false });
    }
    let mut failed: Option<(u64, String, u64, Vec<u8>, String)> = None;
    'outer: loop {
        let mut all = true;
        for (wi, w) in ws.iter_mut().enumerate() {
            if w.done {
                continue;
            }
            match w.ch.try_wait() {
                Ok(Some(st)) => {
                    w.done = true;
                    if st.code() == Some(0) {
                        continue;
                    }
                    let view = read_shared(&w.shm);
                    if st.code() == Some(1) {
                        if let Ok(v) = std::fs::read_to_string(&w.out).map_err(|_| ()).and_then(|t| serde_json::from_str::<Value>(&t).map_err(|_| ())) {
                            let f = &v["fail"];
                            failed = Some((
                                wi as u64,
                                f["sub"].as_str().unwrap_or("").into(),
                                f["case"].as_u64().unwrap_or(0),
                                unhex(f["tape"].as_str().unwrap_or("")),
                                f["message"].as_str().unwrap_or("").into(),
                            ));
                            break 'outer;
                        }
                    }
                    match classify(st, &w.shm) {
                        Child::Fail(m) => {
                            let sub = prop.subs.get(view.sub as usize).map(|s| s.name).unwrap_or("");
                            failed = Some((wi as u64, sub.into(), view.case, view.tape, m));
                        }
                        Child::Error(m) => {
                            run.error = Some(format!("worker {}: {} (sub {} case {}, {} cases done)", wi, m, view.sub, view.case, view.progress))
                        }
                        Child::Ok => {}
                    }
                    break 'outer;
                }
                Ok(None) => {
                    all = false;
                    let p = peek_progress(&w.shm);
                    if p != w.last {
                        w.last = p;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > Duration::from_secs(HANG_SECS) {
                        let v = read_shared(&w.shm);
                        let sub = prop.subs.get(v.sub as usize).map(|s| s.name).unwrap_or("");
                        failed = Some((wi as u64, sub.into(), v.case, v.tape, "no answer".into()));
                        break 'outer;
                    }
                }
                Err(e) => {
                    run.error = Some(e.to_string());
                    break 'outer;
                }
            }
        }
        if all {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.ch.kill();
            let _ = w.ch.wait();
        }
    }
    for w in &ws {
        if let Ok(t) = std::fs::read_to_string(&w.out) {
            if let Ok(v) = serde_json::from_str::<Value>(&t) {
                run.evaluations += v["evaluations"].as_u64().unwrap_or(0);
                run.nontrivial += v["nontrivial"].as_u64().unwrap_or(0);
                for d in v["distinct"].as_array().into_iter().flatten() {
                    run.distinct.insert(d.as_u64().unwrap_or(0));
                }
                for (k, n) in v["labels"].as_object().into_iter().flatten() {
                    *run.labels.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
                }
                for (k, n) in v["per_sub"].as_object().into_iter().flatten() {
                    *run.per_sub.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
                }
                run.kept += v["kept"].as_u64().unwrap_or(0);
                join_edges(&mut run.edges, &unhex(v["edges"].as_str().unwrap_or("")));
                for s in v["samples"].as_array().into_iter().flatten() {
                    run.samples.push(json!({"check": s[0], "case": s[1]}));
                }
            }
        }
        let _ = std::fs::remove_file(&w.shm);
        let _ = std::fs::remove_file(&w.out);
    }
    if let Some((w, sub, case, tape, msg)) = failed {
        match handle_failure(prop, o, w, &sub, case, tape, msg) {
            Ok(f) => run.failure = Some(f),
            Err(e) => run.error = Some(e),
        }
    }
    run
}

fn join_edges(into: &mut Vec<u8>, other: &[u8]) {
    into.resize(into.len().max(other.len()), 0);
    into.iter_mut().zip(other).for_each(|(a, b)| *a |= b);
}

pub fn merge(into: &mut Run, other: Run) {
    into.evaluations += other.evaluations;
    into.nontrivial += other.nontrivial;
    into.distinct.extend(other.distinct);
    for (k, n) in other.labels {
        *into.labels.entry(k).or_default() += n;
    }
    for (k, n) in other.per_sub {
        *into.per_sub.entry(k).or_default() += n;
    }
    into.samples.extend(other.samples);
    into.kept += other.kept;
    join_edges(&mut into.edges, &other.edges);
    if into.failure.is_none() {
        into.failure = other.failure;
    }
    if into.error.is_none() {
        into.error = other.error;
    }
}

/// The whole check of a property; returns the exit code.
pub fn check(prop: &Prop, o: &Opts) -> i32 {
    let start = Instant::now();
    let mut guided = None;
    // For experiments: only some of the passes.
    let passes = std::env::var("VP_PASSES").unwrap_or("debug,release,guided".to_owned());
    let mut run = if passes.contains("debug") { run_cases(prop, o) } else { Run::new() };
    if run.failure.is_none() && run.error.is_none() {
        // The same in the optimised build: enumerations again, other random cases.
        set_profile("release");
        let other = |seed, guided: bool| Opts { thorough: o.thorough, seed, scale: if guided { o.scale / 4.0 } else { o.scale }, only_sub: o.only_sub.clone(), guided };
        if passes.contains("release") {
            let more = run_cases(prop, &other(o.seed ^ 0x52454c45, false));
            merge(&mut run, more);
        }
        if passes.contains("guided") && run.failure.is_none() && run.error.is_none() && crate::props::guided(prop) {
            set_profile("guided");
            let more = run_cases(prop, &other(o.seed ^ 0x47554944, true));
            if std::env::var("VP_EDGES").is_ok() {
                std::fs::write(work_dir().join(format!("edges-{}.hex", prop.id)), hex(&more.edges)).ok();
            }
            guided = Some(json!({
                "cases": more.evaluations, "kept_inputs": more.kept,
                "code_edges": more.edges.len(), "code_edges_reached": more.edges.iter().filter(|e| **e != 0).count(),
            }));
            merge(&mut run, more);
        }
        set_profile("debug");
    }
    let mut known: Vec<String> = vec![];
    if run.failure.is_none() && run.error.is_none() && o.only_sub.is_none() {
        let (extra, k) = crate::props::extra(prop, o);
        known = k;
        if let Some(extra) = extra {
            merge(&mut run, extra);
        }
    }
    // What the harness could not do says nothing about the code under test.
    if let Some(f) = run.failure.take_if(|f| f.message.starts_with("harness:")) {
        run.error = Some(f.message);
    }
    let tier = if o.thorough { "thorough" } else { "quick" };
    let code = if run.failure.is_some() {
        1
    } else if run.error.is_some() {
        2
    } else {
        0
    };
    let exhaustive_subs: Vec<&str> = prop.subs.iter().filter(|s| s.is_enum()).map(|s| s.name).collect();
    let ev = json!({
        "property": prop.id, "tier": tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": run.evaluations,
            "distinct_nontrivial": run.distinct.len(),
            "nontrivial": run.nontrivial,
            "rule": prop.rule,
            "samples": run.samples,
            "cases_per_check": run.per_sub,
            "labels": run.labels,
            "coverage_guided": guided,
            "completely_enumerated_checks": exhaustive_subs,
            "known_findings_seen": known,
            "outcome": match code { 0 => "held on everything explored", 1 => "violation", _ => "no answer" },
        },
        "assumptions": prop.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": if code == 1 { 1 } else { 0 },
    });
    let evdir = verif_dir().join("evidence");
    std::fs::create_dir_all(&evdir).ok();
    std::fs::write(evdir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").ok();
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop.id, k);
    }
    println!(
        "{} [{} seed {}]: {} cases, {} distinct non-trivial, {:.1} s",
        prop.id,
        tier,
        o.seed,
        run.evaluations,
        run.distinct.len(),
        start.elapsed().as_secs_f64()
    );
    if let Some(e) = &run.error {
        println!("ERROR property={} {}", prop.id, e);
    }
    if let Some(f) = &run.failure {
        println!("{}", f.message);
        println!("VIOLATION property={} replay={}", prop.id, f.replay.display());
    }
    code
}
