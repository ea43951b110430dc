//! C04, C05: arbitrary text, JSON.
use crate::alloc::counted;
use crate::engine::*;
use crate::gen::alg as g;
use crate::gen::puz as gp;
use crate::model::alg::*;
use crate::model::puz::*;
use crate::supervisor::{self_cmd, Opts, Run};
use crate::{ensure, ensure_eq};
use cubing::alg::{Alg, AlgNode, Move, QuantumMove};
use cubing::kpuzzle::{KPatternData, KPuzzle, KPuzzleDefinition, KTransformationData};
use std::os::unix::process::ExitStatusExt;
use std::process::Stdio;
use std::str::FromStr;

// ------------------------------------------------------------------------------------ C04

/// Nesting that the recursive parser and destructors handle with a large margin; deeper nesting is
/// the known finding `deep-nesting`.
const MAX_DEPTH: usize = 200;

/// Generous linear bounds on what parsing may allocate (measured on the unchanged tree: about
/// 1 allocation and 200 bytes for each byte of a long text).
const ALLOCS_PER_BYTE: u64 = 60;
const BYTES_PER_BYTE: u64 = 12_000;
const ALLOCS_BASE: u64 = 2_000;
const BYTES_BASE: u64 = 400_000;

fn parse_bounded<T>(t: &str, f: impl Fn(&str) -> Option<T>) -> (Option<T>, u64, u64) {
    let n = t.len() as u64;
    counted(ALLOCS_BASE + ALLOCS_PER_BYTE * n, BYTES_BASE + BYTES_PER_BYTE * n, || f(t))
}

/// Everything one can do with an accepted alg.
fn exercise(c: &mut Case, a: &Alg) -> R {
    let printed = a.to_string();
    let _ = format!("{:?}", a);
    let b = a.clone();
    ensure!(&b == a, "a clone is not equal to the alg {:?}", printed);
    let i = a.invert();
    let _ = i == *a;
    let _ = i.to_string();
    let ii = i.invert();
    let _ = ii.to_string();
    let j = serde_json::to_string(a).map_err(|e| format!("cannot serialise {:?}: {}", printed, e))?;
    let _ = serde_json::from_str::<Alg>(&j);
    for n in a.nodes.iter().take(40) {
        let _ = n.to_string();
        let _ = n.invert().to_string();
        if let AlgNode::MoveNode(m) = n {
            let _ = serde_json::to_string(m);
            let _ = serde_json::to_string(&*m.quantum);
            let _ = m.invert();
        }
    }
    let two = c.s.bool();
    let k = if two { cubing::puzzles::cube2x2x2_kpuzzle() } else { cubing::puzzles::cube3x3x3_kpuzzle() };
    let p = k.default_pattern();
    match (k.transformation_from_alg(a), p.apply_alg(a)) {
        (Ok(t), Ok(q)) => {
            c.label("applied");
            ensure!(p.apply_transformation(&t) == q, "apply_alg and transformation_from_alg disagree on {:?}", printed);
        }
        (Err(e), Err(_)) => {
            let _ = e.to_string();
            let _ = format!("{:?}", e);
        }
        _ => return Err(format!("{:?} is applied by one operation and refused by the other", printed)),
    }
    Ok(())
}

fn all_parsers(c: &mut Case, t: &str) -> R {
    let (a, n1, b1) = parse_bounded(t, |t| Alg::from_str(t).ok());
    let (m, n2, b2) = parse_bounded(t, |t| Move::from_str(t).ok());
    let (q, n3, b3) = parse_bounded(t, |t| QuantumMove::from_str(t).ok());
    let (n, b) = (n1.max(n2).max(n3), b1.max(b2).max(b3));
    if t.len() >= 500 {
        if std::env::var("VP_DEBUG_WORK").is_ok() {
            eprintln!("WORK {} {}", n / t.len() as u64, b / t.len() as u64);
        }
    }
    c.label(if a.is_some() { "accepted" } else { "refused" });
    if let Some(m) = &m {
        let _ = m.to_string();
        let _ = format!("{:?}", m);
        let i = m.invert();
        let _ = i == *m;
        let _ = serde_json::to_string(m).map_err(|e| e.to_string())?;
        let k = cubing::puzzles::cube3x3x3_kpuzzle();
        let _ = k.transformation_from_move(m).map_err(|e| e.to_string());
        let _ = k.default_pattern().apply_move(m).map_err(|e| e.to_string());
    }
    if let Some(q) = &q {
        let _ = q.to_string();
        let _ = format!("{:?}", q.clone());
        let _ = serde_json::to_string(q).map_err(|e| e.to_string())?;
    }
    if let Some(a) = &a {
        exercise(c, a)?;
    }
    Ok(())
}

fn c04_text(c: &mut Case) -> R {
    let t = g::any_text(&mut c.s);
    c.describe(|| format!("text {:?}", t));
    c.key(&t);
    c.nontrivial_if(t.len() >= 2);
    c.label_if(!t.is_ascii(), "non-ASCII");
    all_parsers(c, &t)
}

/// Delimiters nested up to MAX_DEPTH, properly closed or not.
fn nested_text(s: &mut Src) -> String {
    let d = s.size(24, MAX_DEPTH);
    let mut open = String::new();
    let mut close: Vec<&'static str> = vec![];
    let style = s.usize(6);
    for _ in 0..d {
        let k = if style < 5 { style } else { s.usize(5) };
        let (o, e): (&str, &'static str) = match k {
            0 => ("(", ")"),
            1 => ("[", ", R]"),
            2 => ("[", ": R]"),
            3 => ("[R, ", "]"),
            _ => ("[R: ", "]"),
        };
        open += o;
        if s.chance(1, 12) {
            open += *s.pick(&["R ", " ", "(1, 2) ", "(1, ", "\n", ". ", "[", "1", "-3"]);
        }
        close.push(match (k, s.usize(12)) {
            (_, 0) => *s.pick(&[")2", ")'", "]3'", "]", ")", "", " ", ",", ":"]),
            _ => e,
        });
    }
    let core = match s.usize(6) {
        0 => String::new(),
        1 => "1, 2".to_owned(),
        2 => "R".to_owned(),
        _ => {
            let a = g::token_soup(s);
            a.chars().take(40).collect()
        }
    };
    let cut = if s.chance(1, 3) { s.usize(close.len() + 1) } else { close.len() };
    let tail: String = close.iter().rev().take(cut).cloned().collect();
    open + &core + &tail
}

fn long_text(s: &mut Src) -> String {
    let want = s.size(2_000, 30_000);
    let mut t = String::new();
    match s.usize(5) {
        0 => {
            let unit = loop {
                let u = g::token_soup(s);
                if !u.is_empty() {
                    break u;
                }
                if s.tape().len() > 1000 || s.chance(1, 50) {
                    break "R ".to_owned();
                }
            };
            // Opening delimiters nest: keep the depth bounded.
            let opens = unit.bytes().filter(|b| *b == b'(' || *b == b'[').count();
            let mut reps = 0;
            while t.len() < want && (opens == 0 || reps * opens < MAX_DEPTH) {
                t += &unit;
                reps += 1;
            }
        }
        1 => {
            let n = (want / 3).max(1);
            for i in 0..n {
                if i > 0 {
                    t.push(if s.chance(1, 30) { '\n' } else { ' ' });
                }
                let m = if s.chance(1, 4) { g::any_move(s) } else { mv(["R", "U", "F"][i % 3], 1) };
                t += &g::spell_move(s, &m);
                if s.tape().len() > 60_000 {
                    break;
                }
            }
        }
        2 => {
            let c = *s.pick(&['0', '9', 'R', '_', ' ', '\n', '/', '.', '\'', '+', '-', ')', ']', ',', ':', 'é', '\u{0}']);
            t = std::iter::repeat_n(c, want).collect();
            if s.bool() {
                t = format!("R{}", t);
            }
            if s.bool() {
                t.push_str(*s.pick(&["R", "'", ")", "+", " ", "//"]));
            }
        }
        3 => {
            // Many brackets side by side.
            let mut mov = g::any_move;
            let mut am = g::amount;
            while t.len() < want && s.tape().len() < 60_000 {
                let a = g::gen_alg(s, &mut g::AlgParams { depth: 3, len: 4, comments: false, mov: &mut mov, amount: &mut am, budget: 30, near_tuples: true });
                let x = print_alg(&a);
                let reps = 1 + s.usize(40);
                for _ in 0..reps {
                    if t.len() < want {
                        t += &x;
                        t.push(' ');
                    }
                }
            }
        }
        _ => {
            let c = g::comment(s).replace('\n', " ");
            while t.len() < want {
                t += "//";
                t += &c;
                t.push('\n');
            }
        }
    }
    if s.chance(1, 4) {
        t = g::mutate(s, &t);
    }
    t
}
fn c04_nested(c: &mut Case) -> R {
    let t = nested_text(&mut c.s);
    c.describe(|| format!("text {:?}", t));
    c.key(&t);
    c.nontrivial_if(t.len() >= 8);
    c.label_if(t.bytes().filter(|b| *b == b'(' || *b == b'[').count() > 60, "more than 60 delimiters");
    all_parsers(c, &t)
}
fn c04_long(c: &mut Case) -> R {
    let t = long_text(&mut c.s);
    c.describe(|| format!("{} bytes: {:?}…", t.len(), t.chars().take(60).collect::<String>()));
    c.key(&t);
    c.nontrivial_if(t.len() >= 200);
    c.label_if(t.len() > 5_000, "over 5000 bytes");
    all_parsers(c, &t)
}
pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "Texts of every kind (spelled from random trees, mutated, token soup, garbage), nested delimiters closed or not, and long texts are parsed as alg, move and quantum move while allocations are counted against a bound linear in the length; whatever is accepted is printed, compared, cloned, inverted twice, serialised, read back and applied to a cube. A crash, panic, or an allocation beyond the bound fails. For a fixed list of text families the number of machine instructions used to parse is measured (under valgrind) at two lengths and must grow in proportion. Non-trivial: two or more bytes (8 nested, 200 long); distinct by text.",
        assumptions: &["Nesting is at most 200 deep (deeper nesting is the known finding deep-nesting).", "Growth is judged by allocated blocks and bytes, and by counted instructions on the listed families; not by time."],
        subs: vec![
            Sub::random("text", 60_000, 3_000_000, c04_text),
            Sub::random("nested", 10_000, 500_000, c04_nested),
            Sub::random("long", 3_000, 60_000, c04_long),
        ],
    }
}

/// Text families for the instruction count: (name, text of about n units).
fn family_text(name: &str, n: usize) -> Option<String> {
    let wrap = |o: &str, core: &str, e: &str, n: usize| o.repeat(n) + core + &e.repeat(n);
    let d = n / 60;
    Some(match name {
        "moves" => "R U2' ".repeat(n / 6),
        "one move" => "R".repeat(n),
        "leading zeros" => "0".repeat(n) + "3R",
        "digits" => format!("R{}1", "0".repeat(n)),
        "spaces" => " ".repeat(n),
        "newlines" => "\n".repeat(n),
        "comment" => format!("//{}", "x".repeat(n)),
        "comments" => "// a\n".repeat(n / 5),
        "groups" => "(R U)2 ".repeat(n / 7),
        "tuples" => "(1, -2) / ".repeat(n / 10),
        "commutators" => "[R, U] [R: U] ".repeat(n / 14),
        "crowded" => "RU2'".repeat(n / 4),
        "crowded groups" => "(R)(U)".repeat(n / 6),
        "spaced garbage" => "R U ? ".repeat(n / 6),
        "closers" => format!("R{}", ")".repeat(n)),
        "nested groups" => wrap("(", "R", ")", d),
        "unclosed groups" => "(".repeat(d),
        "unclosed groups with moves" => "(R ".repeat(d),
        "nested conjugates" => wrap("[", "R", ": U]", d),
        "nested commutators" => wrap("[R, ", "R", "]", d),
        "unclosed commutators" => "[R, ".repeat(d),
        "unclosed conjugates" => "[R: ".repeat(d),
        "unclosed brackets" => "[".repeat(d),
        "wrong closers" => wrap("[", "R", ")", d),
        "nested tuples" => wrap("(1, ", "2", ")", d),
        "nested crowded" => wrap("(", "RU", ")", d),
        "wrong amounts" => wrap("(", "R", ")99999999999", d),
        "wrong bracket amounts" => wrap("[", "R", ": R]99999999999", d),
        // A few characters again and again; brackets to a depth of 200 only.
        _ => {
            let unit = name.strip_prefix("unit ")?.replace("\\n", "\n");
            let n = if unit.contains(['(', '[']) { d } else { n };
            unit.repeat(n / unit.len())
        }
    })
}
/// All characters of the notation, alone and in pairs, after one another.
fn work_families() -> Vec<String> {
    let mut f: Vec<String> = WORK_FAMILIES.iter().map(|x| x.to_string()).collect();
    f.extend(["1-2R ", "R1+ ", "R++ ", "(.)", "[.,.]", "00R ", ". .\\n", "// a", "[R,", "(1, ", "\r\\n", "é", "\t"].map(|x| format!("unit {}", x)));
    let ch = ["R", "2", "0", "'", ".", "/", "(", ")", "[", "]", ",", ":", "-", "+", " ", "\\n", "_"];
    for a in ch {
        f.push(format!("unit {}", a));
        f.extend(ch.iter().filter(|b| **b != a).map(|b| format!("unit {}{}", a, b)));
    }
    f.push("leading zeros".to_owned());
    f
}
const WORK_FAMILIES: &[&str] = &[
    "moves", "one move", "digits", "spaces", "newlines", "comment", "comments", "groups", "tuples", "commutators", "crowded", "crowded groups", "spaced garbage",
    "closers", "nested groups", "unclosed groups", "unclosed groups with moves", "nested conjugates", "nested commutators", "unclosed commutators",
    "unclosed conjugates", "unclosed brackets", "wrong closers", "nested tuples", "nested crowded", "wrong amounts", "wrong bracket amounts",
];
const WORK_UNIT: usize = 3_000;

/// helper: parse one family text.
pub fn helper_parse(a: &[String]) -> i32 {
    let n: usize = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let Some(t) = family_text(&a[0], n) else { return 2 };
    let t = if n == 0 { String::new() } else { t };
    let r = (Alg::from_str(&t).is_ok(), Move::from_str(&t).is_ok(), QuantumMove::from_str(&t).is_ok());
    std::process::exit(if r.0 || r.1 || r.2 { 0 } else { 10 })
}
pub fn helper_deep() -> i32 {
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(|| Alg::from_str(&"(".repeat(100_000)).is_ok())
        .unwrap()
        .join()
        .map(|_| 0)
        .unwrap_or(101)
}

fn instructions(family: &str, n: usize) -> Result<u64, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new("valgrind")
        .args(["--tool=cachegrind", "--cache-sim=no", "--branch-sim=no", "--cachegrind-out-file=/dev/null"])
        .arg(exe)
        .args(["helper", "parse", family, &n.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .map_err(|e| format!("valgrind: {}", e))?;
    let text = String::from_utf8_lossy(&out.stderr).into_owned();
    for l in text.lines().rev() {
        if l.starts_with("==") && l.contains("I   refs:") || l.contains("I refs:") {
            let d: String = l.split(':').next_back().unwrap_or("").chars().filter(|c| c.is_ascii_digit()).collect();
            if let Ok(v) = d.parse() {
                if matches!(out.status.code(), Some(0) | Some(10)) {
                    return Ok(v);
                }
            }
        }
    }
    Err(format!("no instruction count for {} {}: {:?}", family, n, out.status))
}

/// Work at 4n units over work at n units, both less the work on the empty text. A linear parser
/// gives about 4, a quadratic one 16.
const MAX_RATIO: f64 = 8.0;

fn judge(family: &str) -> Result<(f64, u64), String> {
    static BASE: std::sync::OnceLock<Result<u64, String>> = std::sync::OnceLock::new();
    let base = BASE.get_or_init(|| instructions("moves", 0)).clone()?;
    let one = instructions(family, WORK_UNIT)?.saturating_sub(base).max(20_000);
    let four = instructions(family, 4 * WORK_UNIT)?.saturating_sub(base);
    Ok((four as f64 / one as f64, four))
}

pub fn c04_extra(o: &Opts) -> (Option<Run>, Vec<String>) {
    let mut run = Run::new();
    let mut known = vec![];
    // The known finding.
    let st = self_cmd().args(["helper", "deep"]).stdout(Stdio::null()).stderr(Stdio::null()).status();
    if let Ok(st) = st {
        if st.signal().is_some() {
            known.push("id=deep-nesting parsing 100000 nested delimiters overflows the stack and ends the process".to_owned());
        }
    }
    let families = work_families();
    let results = crate::props::parallel(families.len(), |i| judge(&families[i]));
    if let Some((f, ratio)) = families.iter().zip(&results).filter_map(|(f, r)| r.as_ref().ok().map(|r| (f, r.0))).max_by(|a, b| a.1.total_cmp(&b.1)) {
        run.samples.push(serde_json::json!({"check": "instruction growth", "case": format!("the most of all: {}: 4 times the text costs {:.2} times the instructions", f, ratio)}));
    }
    for (f, r) in families.iter().zip(results) {
        match r {
            Ok((ratio, four)) => {
                run.evaluations += 2;
                run.nontrivial += 1;
                run.distinct.insert(hash_of(f));
                *run.per_sub.entry("instruction growth".into()).or_default() += 2;
                if run.samples.len() < 6 {
                    run.samples.push(serde_json::json!({"check": "instruction growth", "case": format!("{}: 4 times the text costs {:.2} times the instructions ({})", f, ratio, four)}));
                }
                if ratio > MAX_RATIO && run.failure.is_none() {
                    let v = serde_json::json!({"property": "C04", "kind": "custom", "family": f, "units": WORK_UNIT});
                    run.failure = Some(crate::supervisor::custom_failure("C04", &v, format!("parsing 4 times the text {:?}… costs {:.1} times the instructions", family_text(f, 40).unwrap_or_default(), ratio)));
                }
            }
            Err(e) => {
                // No instruction counter here: the allocation bound remains.
                run.labels.insert(format!("instruction count not available: {}", e), 1);
            }
        }
    }
    let _ = o;
    (Some(run), known)
}
pub fn c04_replay(v: &serde_json::Value) -> i32 {
    match judge(v["family"].as_str().unwrap_or("")) {
        Ok((r, _)) => {
            println!("4 times the text costs {:.2} times the instructions", r);
            (r > MAX_RATIO) as i32
        }
        Err(e) => {
            println!("{}", e);
            2
        }
    }
}

// ------------------------------------------------------------------------------------ C05

/// A JSON string literal for the text, with random escapes.
fn json_string(s: &mut Src, t: &str) -> String {
    let style = s.usize(3);
    let mut o = String::from("\"");
    for ch in t.chars() {
        let esc = style == 2 && s.chance(1, 4) || style == 1 && !ch.is_ascii();
        match ch {
            '"' if !esc => o += "\\\"",
            '\\' if !esc => o += "\\\\",
            '\n' if !esc => o += "\\n",
            '\t' if !esc => o += "\\t",
            '/' if style == 2 && s.bool() => o += "\\/",
            c if esc || (c as u32) < 0x20 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o += &format!("\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn de_all<T: serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(j: &str, what: &str) -> Result<Option<T>, String> {
    let a = serde_json::from_str::<T>(j).ok();
    let b = serde_json::from_slice::<T>(j.as_bytes()).ok();
    let c = serde_json::from_reader::<_, T>(j.as_bytes()).ok();
    let v: Option<serde_json::Value> = serde_json::from_str(j).ok();
    let d = match v {
        Some(v) => serde_json::from_value::<T>(v).ok(),
        None => None,
    };
    ensure!(a == b && a == c && a == d, "reading {} from {} depends on the source: {:?} {:?} {:?} {:?}", what, j, a, b, c, d);
    Ok(a)
}

fn c05_alg(c: &mut Case) -> R {
    let a = if c.s.chance(1, 200) { g::long_text_alg(&mut c.s).0 } else { g::built_alg(&mut c.s) };
    let l = to_lib(&a);
    let want = print_alg(&a);
    c.label_if(a.0.len() >= 90, "90+ nodes");
    c.describe(|| format!("alg {:?}", want.chars().take(2_000).collect::<String>()));
    c.key(&a);
    c.nontrivial_if(count_nodes(&a) >= 2);
    let v = serde_json::to_value(&l).map_err(|e| format!("cannot serialise {:?}: {}", want, e))?;
    ensure_eq!(v, serde_json::Value::String(want.clone()), "the JSON of an alg");
    let j = serde_json::to_string(&l).map_err(|e| e.to_string())?;
    ensure_eq!(j, serde_json::to_string(&want).unwrap(), "the JSON text of an alg");
    let back: Option<Alg> = de_all(&j, "alg")?;
    ensure_eq!(back.as_ref().map(from_lib), Some(normalise(&a, false)), "{} read back", j);
    let m = g::any_move(&mut c.s);
    let lm = move_to_lib(&m);
    let jm = serde_json::to_string(&lm).map_err(|e| e.to_string())?;
    ensure_eq!(jm, serde_json::to_string(&print_move(&m)).unwrap(), "the JSON of a move");
    ensure_eq!(de_all::<Move>(&jm, "move")?.as_ref().map(move_from_lib), Some(m.clone()), "{} read back", jm);
    // As a key.
    let map: std::collections::HashMap<Move, u8> = [(lm.clone(), 7)].into_iter().collect();
    let jk = serde_json::to_string(&map).map_err(|e| format!("a map with key {}: {}", print_move(&m), e))?;
    let back: std::collections::HashMap<Move, u8> = serde_json::from_str(&jk).map_err(|e| format!("{}: {}", jk, e))?;
    ensure!(back == map, "{} read back as {:?}", jk, back);
    let q = QuantumMove { family: m.family.clone(), prefix: quantum_to_lib(&m).prefix };
    let jq = serde_json::to_string(&q).map_err(|e| e.to_string())?;
    ensure_eq!(jq, serde_json::to_string(&(print_prefix(&m.prefix) + &m.family)).unwrap(), "the JSON of a quantum move");
    ensure_eq!(de_all::<QuantumMove>(&jq, "quantum move")?.as_ref().map(quantum_from_lib), Some((m.prefix, m.family)), "{} read back", jq);
    Ok(())
}
fn c05_text(c: &mut Case) -> R {
    let t = g::any_text(&mut c.s);
    let j = json_string(&mut c.s, &t);
    c.describe(|| format!("JSON {}", j));
    c.key(&t);
    c.nontrivial_if(t.len() >= 2);
    let want = ref_parse_alg(&t);
    c.label(if want.is_some() { "accepted" } else { "refused" });
    ensure_eq!(de_all::<Alg>(&j, "alg")?.as_ref().map(from_lib), want, "reading an alg from {}", j);
    ensure_eq!(de_all::<Move>(&j, "move")?.as_ref().map(move_from_lib), ref_parse_move(&t), "reading a move from {}", j);
    ensure_eq!(de_all::<QuantumMove>(&j, "quantum move")?.as_ref().map(quantum_from_lib), ref_parse_quantum(&t), "reading a quantum move from {}", j);
    // Not strings.
    let non = match c.s.usize(8) {
        0 => "null".to_owned(),
        1 => "true".to_owned(),
        2 => c.s.range(-5, 300).to_string(),
        3 => "1.5".to_owned(),
        4 => format!("[{}]", j),
        5 => format!("{{\"alg\":{}}}", j),
        6 => "[]".to_owned(),
        _ => "{}".to_owned(),
    };
    ensure!(serde_json::from_str::<Alg>(&non).is_err(), "{} is read as an alg", non);
    ensure!(serde_json::from_str::<Move>(&non).is_err(), "{} is read as a move", non);
    ensure!(serde_json::from_str::<QuantumMove>(&non).is_err(), "{} is read as a quantum move", non);
    Ok(())
}

fn without_nulls(v: &serde_json::Value) -> serde_json::Value {
    match v {
        serde_json::Value::Object(m) => serde_json::Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), without_nulls(v))).collect()),
        serde_json::Value::Array(a) => serde_json::Value::Array(a.iter().map(without_nulls).collect()),
        v => v.clone(),
    }
}
/// Any data: orbit names and lists need not fit any puzzle.
fn any_lists(s: &mut Src) -> (PData, TData) {
    let n = s.usize(4);
    let mut p = PData::new();
    let mut t = TData::new();
    let list = |s: &mut Src| {
        let k = s.size(5, 40);
        (0..k).map(|_| if s.bool() { s.below(6) as u8 } else { s.byte() }).collect::<Vec<u8>>()
    };
    for i in 0..n {
        let name = s.pick(&["EDGES", "é", "", "a b", "\"", "orbitName"]).to_string() + &"_".repeat(i);
        let mods = if s.bool() { Some(list(s)) } else { None };
        p.insert(name.clone(), POrbit { pieces: list(s), ori: list(s), mods });
        t.insert(name, TOrbit { perm: list(s), delta: list(s) });
    }
    (p, t)
}
/// What printing and reading back leaves alone.
fn settle(a: &MAlg) -> MAlg {
    let mut a = normalise(a, false);
    while has_redundant_group(&a) {
        a = normalise(&a, false);
    }
    a
}
/// A definition as data: it need not be well-founded.
fn any_definition(s: &mut Src) -> MPuzzle {
    let mut p = gp::puzzle(s, &gp::PuzzleParams { max_pieces: 12, max_moves: 8, conventional: false, derived: true, shadow: true });
    if s.bool() {
        let (pd, td) = any_lists(s);
        p.default = pd;
        for (_, d) in p.moves.iter_mut() {
            if s.chance(1, 3) {
                *d = td.clone();
            }
        }
        let k = s.usize(4);
        for _ in 0..k {
            let m = gp::puzzle_move(s);
            let mut a = g::text_alg(s);
            if s.bool() {
                a.0.truncate(2);
            }
            let a = settle(&a);
            let d = p.derived.get_or_insert_with(Vec::new);
            if !d.iter().any(|(x, _)| *x == m) {
                d.push((m, a));
            }
        }
        for o in p.orbits.iter_mut() {
            o.m = s.byte();
        }
    }
    if let Some(d) = &mut p.derived {
        for (_, a) in d.iter_mut() {
            *a = settle(a);
        }
    }
    // A key is its notation.
    p.moves.sort_by(|a, b| a.0.cmp(&b.0));
    if let Some(d) = &mut p.derived {
        d.sort_by(|a, b| a.0.cmp(&b.0));
    }
    p
}
fn c05_def(c: &mut Case) -> R {
    let p = any_definition(&mut c.s);
    let style = c.s.below(4);
    let j = def_json(&p, style);
    c.describe(|| format!("definition {}", j));
    c.key(&j);
    c.nontrivial_if(!p.moves.is_empty() && !p.orbits.is_empty());
    c.label_if(p.derived.is_some(), "derived moves");
    let d: KPuzzleDefinition = serde_json::from_str(&j).map_err(|e| format!("refused: {} in {}", e, j))?;
    ensure_eq!(def_from_lib(&d), p, "definition read from {}", j);
    let pretty = serde_json::to_string_pretty(&serde_json::from_str::<serde_json::Value>(&j).unwrap()).unwrap();
    let d1: KPuzzleDefinition = serde_json::from_reader(pretty.as_bytes()).map_err(|e| format!("refused: {} in {}", e, pretty))?;
    ensure_eq!(def_from_lib(&d1), p, "definition read from {}", pretty);
    let l = def_to_lib(&p);
    let out = serde_json::to_value(&l).map_err(|e| format!("cannot serialise: {}", e))?;
    let hand: serde_json::Value = serde_json::from_str(&def_json(&p, 0)).unwrap();
    ensure_eq!(without_nulls(&out), without_nulls(&hand), "serialised definition");
    let d2: KPuzzleDefinition = serde_json::from_value(out).map_err(|e| format!("not read back: {}", e))?;
    ensure_eq!(def_from_lib(&d2), p, "definition read back");
    let text = serde_json::to_string(&l).map_err(|e| e.to_string())?;
    let d3: KPuzzleDefinition = serde_json::from_str(&text).map_err(|e| format!("not read back: {}", e))?;
    ensure_eq!(def_from_lib(&d3), p, "definition read back from text");
    // A puzzle read from the JSON has that definition.
    if let Ok(k) = KPuzzle::try_from_json(j.as_bytes()) {
        ensure_eq!(def_from_lib(k.definition()), p, "definition of the puzzle");
    }
    // Keys are the documented ones: a renamed key is not read as the original.
    let bad = match c.s.usize(4) {
        0 => j.replace("\"defaultPattern\"", "\"default_pattern\""),
        1 => j.replace("\"moves\"", "\"Moves\""),
        2 if !p.orbits.is_empty() => j.replace("\"orbitName\":", "\"orbit_name\":"),
        3 if !p.orbits.is_empty() => j.replace("\"numPieces\":", "\"num_pieces\":"),
        _ => j.replace("\"orbits\"", "\"orbit\""),
    };
    ensure!(serde_json::from_str::<KPuzzleDefinition>(&bad).is_err(), "{} is read as a definition", bad);
    // A key that is no move.
    if let Some((m, _)) = p.moves.first() {
        let key = print_move(m);
        let t = g::mutate(&mut c.s, &key);
        if ref_parse_move(&t).is_none() {
            let mut v: serde_json::Value = serde_json::from_str(&j).unwrap();
            let o = v["moves"].as_object_mut().unwrap();
            let x = o.remove(&key).unwrap();
            o.insert(t.clone(), x);
            ensure!(serde_json::from_str::<KPuzzleDefinition>(&v.to_string()).is_err(), "{:?} is read as a move key", t);
            c.label("bad key");
        }
    }
    Ok(())
}
fn c05_data(c: &mut Case) -> R {
    let (p, t) = any_lists(&mut c.s);
    let style = c.s.below(2);
    c.describe(|| format!("pattern data {} transformation data {}", pdata_json(&p, style), tdata_json(&t)));
    c.key((&p, &t, style));
    c.nontrivial_if(!p.is_empty());
    let j = pdata_json(&p, style);
    let d: KPatternData = serde_json::from_str(&j).map_err(|e| format!("{} refused: {}", j, e))?;
    ensure_eq!(pdata_from_lib(&d), p, "pattern data read from {}", j);
    let out = serde_json::to_value(pdata_to_lib(&p)).map_err(|e| e.to_string())?;
    ensure_eq!(without_nulls(&out), serde_json::from_str::<serde_json::Value>(&pdata_json(&p, 0)).unwrap(), "serialised pattern data");
    let d: KPatternData = serde_json::from_str(&out.to_string()).map_err(|e| e.to_string())?;
    ensure_eq!(pdata_from_lib(&d), p, "pattern data read back");
    let j = tdata_json(&t);
    let d: KTransformationData = serde_json::from_str(&j).map_err(|e| format!("{} refused: {}", j, e))?;
    ensure_eq!(tdata_from_lib(&d), t, "transformation data read from {}", j);
    let out = serde_json::to_value(tdata_to_lib(&t)).map_err(|e| e.to_string())?;
    ensure_eq!(out, serde_json::from_str::<serde_json::Value>(&j).unwrap(), "serialised transformation data");
    let d: KTransformationData = serde_json::from_str(&out.to_string()).map_err(|e| e.to_string())?;
    ensure_eq!(tdata_from_lib(&d), t, "transformation data read back");
    Ok(())
}
pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "Random algs, moves and quantum moves are serialised, compared with their canonical text as a JSON string and read back from string, bytes, reader and value (and as map keys); random texts with random JSON escapes are read and compared with the reference parser; non-strings must be refused. Random definitions and data values (any orbit names and lists) are read from independently written JSON, serialised, compared with it (nulls apart) and read back; renamed keys and malformed move keys must be refused. Non-trivial: two or more nodes or bytes, data with an orbit; distinct by value.",
        assumptions: &["JSON objects have no duplicate keys."],
        subs: vec![
            Sub::random("algs", 40_000, 1_000_000, c05_alg),
            Sub::random("texts", 40_000, 1_000_000, c05_text),
            Sub::random("definitions", 15_000, 300_000, c05_def),
            Sub::random("data", 20_000, 500_000, c05_data),
        ],
    }
}
