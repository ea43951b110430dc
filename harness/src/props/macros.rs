//! C22: the compile-time macros, compiled by rustc with the crate under test as the only other crate.
use crate::engine::*;
use crate::ensure;
use crate::gen::alg as g;
use crate::gen::puz as gp;
use crate::gen::puz::PuzzleParams;
use crate::model::alg::*;
use crate::model::puz::*;
use crate::supervisor::verif_dir;
use serde_json::Value;
use std::fmt::Write as _;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

// ------------------------------------------------------------------------------------ compiling

struct Compiler {
    rustc: PathBuf,
    cubing: PathBuf,
    deps: PathBuf,
}
fn compiler() -> Result<&'static Compiler, String> {
    static C: OnceLock<Result<Compiler, String>> = OnceLock::new();
    C.get_or_init(|| {
        let dir = verif_dir().join("target/macros");
        // What the last build of /verif/macros produced.
        let text = std::fs::read_to_string(dir.join("artifacts.json")).map_err(|e| format!("harness: {}", e))?;
        let mut cubing = None;
        for l in text.lines() {
            if let Ok(v) = serde_json::from_str::<Value>(l) {
                if v["reason"] == "compiler-artifact" && v["target"]["name"] == "cubing" {
                    cubing = v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib")).map(PathBuf::from);
                }
            }
        }
        let cubing = cubing.ok_or("harness: no library cubing was built")?;
        let out = Command::new("rustc").args(["--print", "sysroot"]).output().map_err(|e| format!("harness: {}", e))?;
        let rustc = PathBuf::from(String::from_utf8_lossy(&out.stdout).trim().to_owned()).join("bin/rustc");
        Ok(Compiler { rustc: if rustc.exists() { rustc } else { "rustc".into() }, deps: cubing.parent().unwrap().to_owned(), cubing })
    })
    .as_ref()
    .map_err(|e| e.clone())
}

/// A directory of its own, removed at the end.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Result<Dir, String> {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = verif_dir().join(format!("target/work/macros-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).map_err(|e| format!("harness: {}", e))?;
        Ok(Dir(d))
    }
    fn write(&self, name: &str, text: &str) -> Result<PathBuf, String> {
        let p = self.0.join(name);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).map_err(|e| format!("harness: {}", e))?;
        }
        std::fs::write(&p, text).map_err(|e| format!("harness: {}", e))?;
        Ok(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn run(cmd: &mut Command) -> Result<Output, String> {
    cmd.stdin(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: 50, rlim_max: 50 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_DATA, &l);
            Ok(())
        });
    }
    cmd.output().map_err(|e| format!("harness: {:?}: {}", cmd.get_program(), e))
}

struct Compiled {
    ok: bool,
    /// Message and first and last line of where the macro is used.
    errors: Vec<(String, usize, usize)>,
    ended: String,
}
fn compile(source: &Path, out: Option<&Path>) -> Result<Compiled, String> {
    let c = compiler()?;
    let mut cmd = Command::new(&c.rustc);
    cmd.args(["--edition", "2021", "-C", "debuginfo=0", "--error-format=json", "--cap-lints=allow", "--crate-name", "generated"]);
    match out {
        Some(o) => cmd.args(["--crate-type", "bin", "-o"]).arg(o),
        None => cmd.args(["--crate-type", "lib", "--emit=metadata", "-o"]).arg(source.with_extension("rmeta")),
    };
    cmd.arg(source).arg("--extern").arg(format!("cubing={}", c.cubing.display())).arg("-L").arg(format!("dependency={}", c.deps.display()));
    let o = run(&mut cmd)?;
    let mut errors = vec![];
    let text = String::from_utf8_lossy(&o.stderr);
    for l in text.lines() {
        // The macros may print something too.
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["level"] != "error" {
            continue;
        }
        let mut spans: Vec<&Value> = v["spans"].as_array().into_iter().flatten().filter(|s| s["is_primary"] == true).collect();
        // Up to where the outermost macro is used.
        for s in spans.iter_mut() {
            while s["expansion"].is_object() {
                *s = &s["expansion"]["span"];
            }
        }
        for s in spans {
            errors.push((v["message"].as_str().unwrap_or("").to_owned(), s["line_start"].as_u64().unwrap_or(0) as usize, s["line_end"].as_u64().unwrap_or(0) as usize));
        }
    }
    if o.status.code().is_none() && o.status.signal().is_some_and(|s| s == libc::SIGKILL || s == libc::SIGTERM) {
        return Err(format!("harness: the compiler was ended: {}", o.status));
    }
    Ok(Compiled { ok: o.status.success(), errors, ended: format!("{}: {}", o.status, text.lines().filter(|l| !l.starts_with('{')).collect::<Vec<_>>().join("\n").chars().take(600).collect::<String>()) })
}

// ------------------------------------------------------------------------------------ literals

/// Writes a text as a string literal, in one of the ways Rust has.
fn literal(s: &mut Src, t: &str) -> String {
    let plain = |c: char| !c.is_control() && !matches!(c, '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}' | '\u{feff}');
    let rawable = t.chars().all(|c| plain(c) || c == '\n');
    match s.weighted(&[6, 2, 1, 1, 1]) {
        1 | 4 if rawable => {
            let mut n = s.usize(3);
            while t.contains(&format!("\"{}", "#".repeat(n))) {
                n += 1;
            }
            format!("r{h}\"{}\"{h}", t, h = "#".repeat(n))
        }
        2 => {
            let mut o = String::from("\"");
            for c in t.chars() {
                match s.usize(3) {
                    0 if (c as u32) < 0x80 => write!(o, "\\x{:02x}", c as u32).unwrap(),
                    1 => write!(o, "\\u{{{:x}}}", c as u32).unwrap(),
                    _ => o.push_str(&c.escape_debug().to_string()),
                }
            }
            o + "\""
        }
        3 => {
            // A continued line, and line breaks as they are.
            let mut o = String::from("\"");
            for c in t.chars() {
                if !c.is_whitespace() && s.chance(1, 8) {
                    o.push_str("\\\n        ");
                }
                match c {
                    '\n' if s.bool() && !o.ends_with("        ") => o.push('\n'),
                    c => o.push_str(&c.escape_debug().to_string()),
                }
            }
            // A break directly after a continuation would be eaten with it; the next character is never white space here.
            o + "\""
        }
        _ => format!("{:?}", t),
    }
}

#[derive(Clone)]
struct Entry {
    alg: bool,
    text: String,
    lit: String,
    how: usize,
}
fn call(e: &Entry) -> String {
    let (name, l) = (if e.alg { "parse_alg" } else { "parse_move" }, &e.lit);
    match e.how {
        0 => format!("cubing::alg::{}!({})", name, l),
        1 => format!("{}!({})", name, l),
        2 => format!("{}![{}]", name, l),
        3 => format!("{}! {{ {} }}", name, l),
        4 => format!("by_literal!({}, {})", name, l),
        5 => format!("by_expression!({}, {})", name, l),
        6 => format!("::cubing::alg::{}!(/* a comment */ {} /* another */)", name, l),
        7 => format!("{{ let x = {}!({}); let y = x.clone(); drop(x); y }}", name, l),
        8 => format!("(|| {}!({}))()", name, l),
        _ => format!("vec![{n}!({l}), {n}!({l})].pop().unwrap()", n = name, l = l),
    }
}
const HEAD: &str = "#![allow(warnings)]\nuse cubing::alg::{parse_alg, parse_move, Alg, Move};\nmacro_rules! by_literal { ($m:ident, $l:literal) => { $m!($l) }; }\nmacro_rules! by_expression { ($m:ident, $l:expr) => { $m!($l) }; }\n";

fn entry(s: &mut Src) -> Entry {
    let alg = s.bool();
    let text = if alg {
        match s.weighted(&[5, 4, 1]) {
            0 => {
                let a = g::text_alg(s);
                g::spell_alg(s, &a)
            }
            1 => g::any_text(s),
            _ => s.pick(&["", " ", "\n", "// c", "R\n", "[,]", "[:]2", "()", "(1, 2)", "(1, -1)'", "(U_SQ_ D_SQ_)", "/", "/2", "//", ". .", "R++ U--", "2R+ 3-", "R1+", "(R)1", "[R, U]1", "([R, U])"]).to_string(),
        }
    } else {
        match s.weighted(&[5, 3, 2, 1]) {
            0 => {
                let m = g::any_move(s);
                g::spell_move(s, &m)
            }
            1 => {
                let m = g::any_move(s);
                let t = g::spell_move(s, &m);
                g::mutate(s, &t)
            }
            2 => {
                let m = MMove { prefix: g::prefix(s), family: s.pick(&["R", "Rw", "r", "x", "ALL", "U_PLUS_"]).to_string(), amount: g::amount(s) };
                g::spell_move(s, &m)
            }
            _ => s.pick(&["", " R", "R ", "/", "/'", "R U", "R\n", "(R)", ".", "// c", "R++", "R--", "R3+", "3R3-", "2-1R", "0R", "1-1R", "U_SQ_", "_SLASH_", "R'2", "R2147483648", "R-1"]).to_string(),
        }
    };
    let lit = literal(s, &text);
    let how = s.weighted(&[3, 3, 1, 1, 1, 1, 1, 1, 1, 1]);
    Entry { alg, text, lit, how }
}

fn c22_literals(c: &mut Case) -> R {
    let n = c.s.size(60, 90);
    let mut entries: Vec<(Entry, bool)> = vec![];
    for _ in 0..n {
        let e = entry(&mut c.s);
        let valid = if e.alg { ref_parse_alg(&e.text).is_some() } else { ref_parse_move(&e.text).is_some() };
        entries.push((e, valid));
    }
    let good: Vec<&Entry> = entries.iter().filter(|e| e.1).map(|e| &e.0).collect();
    // Things that are not string literals at all.
    let odd = if c.s.chance(1, 4) { Some(*c.s.pick(&["", "R", "1", "b\"R\"", "'R'", "c\"R\"", "\"R\" \"U\"", "\"R\", \"U\"", "(\"R\")", "-\"R\"", "concat!(\"R\")", "#\"R\""])) } else { None };
    c.describe(|| entries.iter().map(|(e, v)| format!("{} {}", if *v { "valid" } else { "invalid" }, call(e))).collect::<Vec<_>>().join("\n"));
    for (e, _) in &entries {
        c.key((e.alg, &e.text, e.how));
    }
    c.nontrivial_if(!entries.is_empty());
    c.evals = entries.len() as u64;
    c.label_if(good.len() < entries.len(), "with invalid literals");
    c.label_if(odd.is_some(), "with something that is not a literal");
    let dir = Dir::new()?;

    // All of them: exactly the invalid ones are reported.
    let mut src = String::from(HEAD);
    let mut lines = vec![];
    let mut line = src.lines().count() + 1;
    let mut add = |src: &mut String, text: String| {
        let n = text.matches('\n').count();
        lines.push((line, line + n));
        line += n + 1;
        src.push_str(&text);
        src.push('\n');
    };
    for (i, (e, _)) in entries.iter().enumerate() {
        add(&mut src, format!("pub fn f{}() -> {} {{ {} }}", i, if e.alg { "Alg" } else { "Move" }, call(e)));
    }
    if let Some(o) = odd {
        add(&mut src, format!("pub fn odd() {{ let _ = {}!({}); }}", if n % 2 == 0 { "parse_alg" } else { "parse_move" }, o));
    }
    if !lines.is_empty() {
        let p = dir.write("all.rs", &src)?;
        let got = compile(&p, None)?;
        for (i, (from, to)) in lines.iter().enumerate() {
            let valid = entries.get(i).is_some_and(|e| e.1);
            let what = || entries.get(i).map(|e| call(&e.0)).unwrap_or_else(|| format!("a macro given {}", odd.unwrap_or("")));
            let error = got.errors.iter().find(|e| e.1 <= *to && e.2 >= *from);
            if valid {
                if let Some(e) = error {
                    return Err(format!("{} does not compile: {}", what(), e.0));
                }
            } else {
                ensure!(error.is_some(), "{} compiles, but it is not valid ({} errors elsewhere; {})", what(), got.errors.len(), got.ended);
            }
        }
        let all_good = good.len() == entries.len() && odd.is_none();
        ensure!(got.ok == all_good, "compiling ends with {}, errors {:?}", got.ended, got.errors);
    }

    // The valid ones: compiled and compared with parsing at run time.
    if good.is_empty() {
        return Ok(());
    }
    let mut src = String::from(HEAD);
    for (i, e) in good.iter().enumerate() {
        writeln!(src, "fn f{}() -> {} {{ {} }}", i, if e.alg { "Alg" } else { "Move" }, call(e)).unwrap();
    }
    src.push_str(
        "fn same<T: PartialEq + std::fmt::Debug + std::fmt::Display>(i: usize, text: &str, f: fn() -> T, parsed: Option<T>, fields: fn(&T) -> String) {
    let (got, again) = (f(), f());
    let Some(parsed) = parsed else { println!(\"{} cannot be parsed at run time\", i); return };
    if got != parsed || parsed != got || again != parsed { println!(\"{} differs from what parsing gives\", i); return }
    if fields(&got) != fields(&parsed) || fields(&again) != fields(&parsed) { println!(\"{} is {} but parsing gives {}\", i, fields(&got), fields(&parsed)); return }
    if format!(\"{:?} {}\", got, got) != format!(\"{:?} {}\", parsed, parsed) { println!(\"{} reads {:?} but parsing gives {:?}\", i, got, parsed) }
}
fn alg_fields(a: &Alg) -> String { format!(\"{} nodes\", a.nodes.len()) }
fn move_fields(m: &Move) -> String { format!(\"{:?} {:?} {}\", m.quantum.family, m.quantum.prefix, m.amount) }
fn main() {
",
    );
    for (i, e) in good.iter().enumerate() {
        let f = if e.alg { "alg_fields" } else { "move_fields" };
        writeln!(src, "    same({i}, {t:?}, f{i}, {t:?}.parse().ok(), {f});", i = i, t = e.text, f = f).unwrap();
    }
    src.push_str("    println!(\"done\");\n}\n");
    let p = dir.write("good.rs", &src)?;
    let bin = dir.0.join("good");
    let got = compile(&p, Some(&bin))?;
    ensure!(got.ok, "the valid literals do not compile: {:?} {}", got.errors, got.ended);
    let o = run(&mut Command::new(&bin))?;
    let out = String::from_utf8_lossy(&o.stdout);
    if let Some(l) = out.lines().find(|l| *l != "done") {
        let i: usize = l.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
        return Err(format!("{}: {}", good.get(i).map(|e| call(e)).unwrap_or_default(), l));
    }
    ensure!(o.status.success() && out.ends_with("done\n"), "the program with {} valid literals ends with {}: {}", good.len(), o.status, String::from_utf8_lossy(&o.stderr));
    Ok(())
}

// ------------------------------------------------------------------------------------ JSON files

const SHOW: &str = r#"#![allow(warnings)]
use cubing::kpuzzle::*;
pub fn t(t: &KTransformation) {
    for o in t.kpuzzle().orbit_info_iter() {
        print!("t {:?}", o.name.to_string());
        for i in 0..o.num_pieces { print!(" {}.{}", t.get_permutation_idx(o, i), t.get_orientation_delta(o, i)); }
        println!();
    }
}
pub fn p(p: &KPattern) {
    for o in p.kpuzzle().orbit_info_iter() {
        print!("p {:?}", o.name.to_string());
        for i in 0..o.num_pieces { let x = p.get_orientation_with_mod(o, i); print!(" {}.{}.{}", p.get_piece(o, i), x.orientation, x.orientation_mod); }
        println!();
    }
}
pub fn k(k: &KPuzzle, moves: &[&str]) {
    println!("k {:?}", k.definition().name);
    for o in k.orbit_info_iter() { println!("o {:?} {} {}", o.name.to_string(), o.num_pieces, o.num_orientations); }
    p(&k.default_pattern());
    for m in moves {
        match k.transformation_from_alg(&m.parse().unwrap()) { Ok(x) => t(&x), Err(e) => println!("no {}", m) }
    }
}
pub fn once<T: 'static>(what: &str, f: fn() -> &'static T) {
    let at = f() as *const T as usize;
    for _ in 0..3 { if f() as *const T as usize != at { println!("another instance of {}", what); } }
}
/// The first calls ever, from several threads.
pub fn race<T: 'static>(what: &str, f: fn() -> &'static T) {
    let b = std::sync::Barrier::new(4);
    let v: Vec<usize> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4).map(|_| s.spawn(|| { b.wait(); f() as *const T as usize })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0)).collect()
    });
    if v.iter().any(|x| *x != v[0]) { println!("another instance of {} for another thread", what); }
}
"#;

fn show_t(o: &mut String, os: &[MOrbit], t: &MT) {
    for (x, y) in os.iter().zip(&t.0) {
        write!(o, "t {:?}", x.name).unwrap();
        for (a, b) in y.perm.iter().zip(&y.delta) {
            write!(o, " {}.{}", a, b).unwrap();
        }
        o.push('\n');
    }
}
fn show_p(o: &mut String, os: &[MOrbit], p: &MP) {
    for (x, y) in os.iter().zip(&p.0) {
        write!(o, "p {:?}", x.name).unwrap();
        for (a, b, m) in y {
            write!(o, " {}.{}.{}", a, b, m).unwrap();
        }
        o.push('\n');
    }
}

fn c22_files(c: &mut Case) -> R {
    let s = &mut c.s;
    let dir = Dir::new()?;
    let n = 1 + s.usize(3);
    let mut src = format!("mod show;\nuse cubing::kpuzzle::*;\nuse cubing::alg::*;\n{}", if s.bool() { "mod a {}\n" } else { "" });
    let mut main = String::from("fn main() {\n");
    let mut want = String::new();
    let mut what = vec![];
    for i in 0..n {
        let pp = PuzzleParams { max_pieces: *s.pick(&[4u8, 20, 90]), max_moves: 4, conventional: true, derived: s.bool(), shadow: false };
        let m = gp::puzzle(s, &pp);
        let name = format!("{}{}", s.pick(&["example", "x", "_p", "Big", "puzzle_3x3x3_"]), i);
        let vis = *s.pick(&["", "pub", "pub(crate)", "pub(self)", "pub(super)"]);
        let folder = *s.pick(&["", "./", "files/", "./files/deep/"]);
        let absolute = s.chance(1, 4);
        let nested = s.bool();
        let vis = if nested || vis != "pub(super)" { vis } else { "" };
        let file = |ext: &str, text: &str| -> Result<String, String> {
            let rel = format!("{}{}.{}", folder, name, ext);
            let p = dir.write(&rel, text)?;
            Ok(if absolute { p.display().to_string() } else { rel })
        };
        let style = s.below(4);
        let text = if s.bool() { serde_json::to_string_pretty(&serde_json::from_str::<Value>(&def_json(&m, style)).unwrap()).unwrap() } else { def_json(&m, style) };
        let (pat, tr) = (gp::pattern(s, &m.orbits), gp::trans(s, &m.orbits));
        let def = file("kpuzzle.json", &text)?;
        let pf = file("kpattern.json", &pdata_json(&pattern_data(&m.orbits, &pat), 0))?;
        let tf = file("ktransformation.json", &tdata_json(&trans_data(&m.orbits, &tr)))?;
        let puzzle = match s.usize(3) {
            0 => format!("{}_kpuzzle()", name),
            1 => format!("{}_kpuzzle().clone()", name),
            _ => format!("{{ let k: &KPuzzle = {}_kpuzzle(); k }}", name),
        };
        // The same name serves for all three kinds.
        let q = if s.bool() { "cubing::kpuzzle::" } else { "" };
        let mut body = format!("{q}kpuzzle_from_json_file!({vis}, {name}, {def:?});\n");
        body += &format!("{q}kpattern_from_json_file!({vis}, {name}, {pf:?}, {puzzle});\n");
        body += &format!("{q}ktransformation_from_json_file!({vis}, {name}, {tf:?}, {puzzle});\n");
        let moves: Vec<MAlg> = (0..s.usize(4)).map(|_| gp::puzzle_alg(s, &m, 1, 3, 6, true)).filter(|a| m.cost(a) < 40_000).collect();
        let texts: Vec<String> = moves.iter().map(print_alg).collect();
        if nested {
            writeln!(src, "mod m{} {{\nuse cubing::kpuzzle::*;\n{}\npub fn go() {{ ", i, body).unwrap();
        } else {
            writeln!(src, "{}\nfn go{}() {{", body, i).unwrap();
        }
        let mut order = vec!["kpuzzle", "kpattern", "ktransformation"];
        s.shuffle(&mut order);
        for k in &order {
            writeln!(src, "crate::show::{}({:?}, {}_{});", s.pick(&["race", "once"]), k, name, k).unwrap();
        }
        // A compile-time check of the types, too.
        writeln!(src, "let k: &'static KPuzzle = {n}_kpuzzle(); crate::show::k(k, &{t:?});", n = name, t = texts).unwrap();
        writeln!(src, "let x: &'static KPattern = {n}_kpattern(); crate::show::p(x); crate::show::p(&x.apply_transformation({n}_ktransformation()));", n = name).unwrap();
        writeln!(src, "let y: &'static KTransformation = {n}_ktransformation(); crate::show::t(y); }}{e}", n = name, e = if nested { "}" } else { "" }).unwrap();
        writeln!(main, "    {};", if nested { format!("m{}::go()", i) } else { format!("go{}()", i) }).unwrap();
        writeln!(want, "k {:?}", m.name).unwrap();
        for o in &m.orbits {
            writeln!(want, "o {:?} {} {}", o.name, o.n, o.m).unwrap();
        }
        show_p(&mut want, &m.orbits, &pattern_of(&m.orbits, &m.default));
        for a in &moves {
            match m.eval(a) {
                Ok(t) => show_t(&mut want, &m.orbits, &t),
                Err(_) => writeln!(want, "no {}", print_alg(a)).unwrap(),
            }
        }
        show_p(&mut want, &m.orbits, &pat);
        show_p(&mut want, &m.orbits, &apply(&m.orbits, &pat, &tr));
        show_t(&mut want, &m.orbits, &tr);
        what.push((name, vis, folder, nested, m));
    }
    main += "    println!(\"done\");\n}\n";
    want += "done\n";
    c.describe(|| what.iter().map(|(n, v, f, x, m)| format!("{} {} in {:?}{}: {}", v, n, f, if *x { ", in a module" } else { "" }, super::puz::brief(m))).collect::<Vec<_>>().join("\n"));
    c.key(&want);
    c.nontrivial = true;
    dir.write("show.rs", SHOW)?;
    let p = dir.write("main.rs", &(src + &main))?;
    let bin = dir.0.join("main");
    let got = compile(&p, Some(&bin))?;
    ensure!(got.ok, "the JSON file macros do not compile: {:?} {}", got.errors, got.ended);
    let o = run(&mut Command::new(&bin))?;
    let out = String::from_utf8_lossy(&o.stdout);
    for (i, (a, b)) in out.lines().zip(want.lines()).enumerate() {
        ensure!(a == b, "line {} is {:?}, not {:?}", i + 1, a, b);
    }
    ensure!(o.status.success() && out == want, "the program ends with {}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>());
    Ok(())
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "Batches of generated literals (valid spellings of random algs and moves with every kind of prefix, mutations, token soup; written as plain, escaped, raw and continued string literals; through paths, imports, other macros, closures) are compiled by rustc against the crate built from /repo, as the only extern crate. In one file of all literals exactly the invalid lines must carry an error; the valid ones are compiled, run and compared with parsing at run time, twice. JSON file macros: random puzzles, patterns and transformations in files, several per program, in modules and folders, with every visibility, first called in any order and by several threads; what the functions return is printed entry by entry and compared with the model, and every call must return the same instance. A case is a batch; evaluations count literals. Distinct by literals and files.",
        assumptions: &["Literals have no suffix and nothing after them.", "The compiler is the installed stable rustc."],
        subs: vec![Sub::random("literals", 200, 5_000, c22_literals), Sub::random("JSON files", 120, 2_000, c22_files)],
    }
}
