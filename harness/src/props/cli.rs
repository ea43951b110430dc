//! C21: the `alg` command line tool, run as a process.
use crate::{ensure, ensure_eq};
use crate::engine::*;
use crate::gen::alg as g;
use crate::model::alg::*;
use crate::supervisor::verif_dir;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn tool() -> std::path::PathBuf {
    std::env::var("VP_ALG").map(Into::into).unwrap_or_else(|_| verif_dir().join("target/cli/debug/alg"))
}

#[derive(Debug)]
struct Answer {
    /// Exit code; a signal is 1000 and its number, no answer in time 2000.
    code: i32,
    out: Vec<u8>,
    err: Vec<u8>,
}

/// How standard input arrives.
#[derive(Clone, Debug, PartialEq)]
enum Feed {
    None,
    File(Vec<u8>),
    Pipe(Vec<u8>, Vec<usize>),
    /// Typed at a terminal.
    Typed(Vec<u8>),
    /// A pipe that is never closed, with this in it.
    Held(Vec<u8>),
}

/// Where standard output goes.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
enum Out {
    #[default]
    Pipe,
    File,
    Terminal,
}

/// What should not matter.
#[derive(Clone, Debug, Default)]
struct Around {
    vars: Vec<(&'static str, &'static str)>,
    cwd: Option<&'static str>,
    arg0: Option<&'static str>,
    out: Out,
}
fn around(s: &mut Src) -> Around {
    let mut a = Around::default();
    if !s.chance(1, 3) {
        return a;
    }
    for _ in 0..s.usize(4) {
        a.vars.push(*s.pick(&[
            ("NO_COLOR", "1"),
            ("TERM", "dumb"),
            ("TERM", "xterm-256color"),
            ("COLUMNS", "10"),
            ("COLUMNS", "0"),
            ("LANG", "tr_TR.UTF-8"),
            ("LC_ALL", "C"),
            ("LC_ALL", "de_DE.ISO-8859-1"),
            ("RUST_BACKTRACE", "full"),
            ("RUST_LOG", "trace"),
            ("SHELL", "/bin/zsh"),
            ("HOME", "/nonexistent"),
            ("PATH", ""),
            ("POSIXLY_CORRECT", "1"),
            ("DEBUG", "1"),
            ("CI", "true"),
            ("ALG", "R U R'"),
            ("STDIN", "1"),
            ("VERBOSE", "1"),
            ("QUIET", "1"),
        ]));
    }
    a.cwd = *s.pick(&[None, Some("/"), Some("/proc/self/fd"), Some("/usr/bin")]);
    a.arg0 = *s.pick(&[None, Some("alg"), Some("/usr/bin/algorithm"), Some("parse"), Some("-alg"), Some("")]);
    a
}

fn memfd() -> Result<std::fs::File, String> {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::memfd_create(c"scratch".as_ptr(), libc::MFD_CLOEXEC);
        if fd < 0 {
            return Err("harness: memfd_create".into());
        }
        Ok(std::fs::File::from_raw_fd(fd))
    }
}
/// Both ends of a terminal that shows what it is given as it is and has no keys but the one for the end of a text.
fn terminal() -> Result<(std::fs::File, std::fs::File), String> {
    use std::os::fd::FromRawFd;
    unsafe {
        let (mut m, mut t) = (0, 0);
        if libc::openpty(&mut m, &mut t, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) != 0 {
            return Err("harness: openpty".into());
        }
        let (master, tty) = (std::fs::File::from_raw_fd(m), std::fs::File::from_raw_fd(t));
        for fd in [m, t] {
            libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        let mut x: libc::termios = std::mem::zeroed();
        if libc::tcgetattr(t, &mut x) != 0 {
            return Err("harness: tcgetattr".into());
        }
        libc::cfmakeraw(&mut x);
        x.c_lflag |= libc::ICANON;
        for k in x.c_cc.iter_mut() {
            *k = 0;
        }
        x.c_cc[libc::VEOF] = 4;
        if libc::tcsetattr(t, libc::TCSANOW, &x) != 0 {
            return Err("harness: tcsetattr".into());
        }
        Ok((master, tty))
    }
}
/// Whether a text can be typed at the terminal.
fn typable(t: &str) -> bool {
    t.len() < 3000 && !t.contains('\u{4}') && !t.contains('\0')
}

fn run_tool(args: &[String], feed: &Feed) -> Result<Answer, String> {
    run_tool_in(args, feed, &Around::default())
}
fn run_tool_in(args: &[String], feed: &Feed, around: &Around) -> Result<Answer, String> {
    let harness = |e: std::io::Error| format!("harness: {}", e);
    let mut cmd = Command::new(tool());
    cmd.args(args).envs(around.vars.iter().copied()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if let Some(d) = around.cwd {
        cmd.current_dir(d);
    }
    if let Some(a) = around.arg0 {
        cmd.arg0(a);
    }
    let mut written = None; // the file, read afterwards
    let mut shown = None; // the terminal's other end
    match around.out {
        Out::Pipe => {}
        Out::File => {
            let f = memfd()?;
            cmd.stdout(f.try_clone().map_err(harness)?);
            written = Some(f);
        }
        Out::Terminal => {
            let (m, t) = terminal()?;
            cmd.stdout(t);
            shown = Some(m);
        }
    }
    let mut typed = None; // kept open until the end
    match feed {
        Feed::Typed(b) => {
            let (mut m, t) = terminal()?;
            m.write_all(b).map_err(harness)?;
            // After a partial line, the first only ends the line.
            m.write_all(if b.is_empty() || b.ends_with(b"\n") { b"\x04" } else { b"\x04\x04" }).map_err(harness)?;
            cmd.stdin(t);
            typed = Some(m);
        }
        Feed::None => {
            cmd.stdin(Stdio::null());
        }
        Feed::File(b) => {
            let mut f = memfd()?;
            f.write_all(b).map_err(|e| format!("harness: {}", e))?;
            std::io::Seek::rewind(&mut f).map_err(|e| format!("harness: {}", e))?;
            cmd.stdin(f);
        }
        Feed::Pipe(..) | Feed::Held(_) => {
            cmd.stdin(Stdio::piped());
        }
    }
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
    let mut ch = cmd.spawn().map_err(|e| format!("harness: the tool cannot be started: {}", e))?;
    // The tool alone holds its end of the terminal now.
    drop(cmd);
    let mut stdin = ch.stdin.take();
    let mut held = None; // kept open until the tool has ended
    if let Feed::Held(b) = feed {
        held = stdin.take();
        if let Some(h) = &mut held {
            // Less than a pipe holds. The tool may have ended already.
            let _ = h.write_all(&b[..b.len().min(4096)]);
        }
    }
    let patience = if held.is_some() { 25 } else { 40 };
    let mut se = ch.stderr.take().unwrap();
    let so: Option<Box<dyn Read + Send>> = match (ch.stdout.take(), shown) {
        (Some(o), _) => Some(Box::new(o)),
        (None, Some(m)) => Some(Box::new(m)),
        _ => None,
    };
    std::thread::scope(|sc| {
        let w = sc.spawn(move || {
            if let (Some(mut i), Feed::Pipe(b, cuts)) = (stdin, feed) {
                let mut at = 0;
                for c in cuts.iter().chain([&b.len()]) {
                    let c = (*c).min(b.len()).max(at);
                    // The tool may have ended without reading.
                    if i.write_all(&b[at..c]).is_err() {
                        return;
                    }
                    let _ = i.flush();
                    if c < b.len() {
                        std::thread::sleep(Duration::from_micros(300));
                    }
                    at = c;
                }
            }
        });
        let o = sc.spawn(move || {
            let mut v = vec![];
            if let Some(mut so) = so {
                // A terminal ends with an error.
                let _ = so.read_to_end(&mut v);
            }
            v
        });
        let e = sc.spawn(move || {
            let mut v = vec![];
            let _ = se.read_to_end(&mut v);
            v
        });
        let start = Instant::now();
        let mut nap = 100;
        let code = loop {
            match ch.try_wait() {
                Ok(Some(st)) => break st.code().unwrap_or_else(|| 1000 + st.signal().unwrap_or(0)),
                Ok(None) if start.elapsed() > Duration::from_secs(patience) => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break 2000;
                }
                Ok(None) => {
                    std::thread::sleep(Duration::from_micros(nap));
                    nap = (nap * 2).min(2_000);
                }
                Err(e) => {
                    let _ = ch.kill();
                    return Err(format!("harness: {}", e));
                }
            }
        };
        let _ = w.join();
        let mut out = o.join().unwrap();
        if let Some(mut f) = written {
            std::io::Seek::rewind(&mut f).map_err(harness)?;
            f.read_to_end(&mut out).map_err(harness)?;
        }
        drop(typed);
        drop(held);
        Ok(Answer { code, out, err: e.join().unwrap() })
    })
}

fn feed(s: &mut Src, t: &str) -> Feed {
    let b = t.as_bytes().to_vec();
    match s.weighted(&[2, 3, 2, 1]) {
        0 => Feed::File(b),
        1 => Feed::Pipe(b, vec![]),
        3 if typable(t) => Feed::Typed(b),
        _ => {
            let n = s.usize(4);
            let mut cuts: Vec<usize> = (0..n).map(|_| s.usize(b.len() + 1)).collect();
            cuts.sort();
            Feed::Pipe(b, cuts)
        }
    }
}
/// Standard input that is not asked for.
fn unread(s: &mut Src) -> Feed {
    match s.weighted(&[10, 3, 2]) {
        0 => Feed::None,
        1 => Feed::Pipe(b"U2 )".to_vec(), vec![]),
        _ => Feed::Held(if s.bool() { b"U2 )\n".to_vec() } else { vec![] }),
    }
}
/// Arguments that give the text as it is.
fn as_arguments(s: &mut Src, sub: &str, t: &str) -> Vec<String> {
    let mut v = vec![sub.to_owned()];
    if t.starts_with('-') || s.chance(1, 3) {
        v.push("--".into());
    }
    v.push(t.to_owned());
    v
}
fn short(t: &str) -> String {
    if t.len() > 300 {
        format!("{:?}… ({} bytes)", t.chars().take(200).collect::<String>(), t.len())
    } else {
        format!("{:?}", t)
    }
}

fn text(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 1, 1, 1]) {
        0 => g::any_text(s),
        1 => {
            let a = g::text_alg(s);
            g::spell_alg(s, &a)
        }
        2 => s.pick(&["", " ", "\n", "-", "--", "--stdin", "-h", "--help", "--version", "-V", "parse", "invert", "R\n", "\nR", "R\r\n", "\u{feff}R", "U\n\nD", "=R", "-R", "R'", "// c", "// c\n", "'", "\""]).to_string(),
        3 => {
            // Ends as files and shells make texts end.
            let a = g::text_alg(s);
            let t = g::spell_alg(s, &a);
            t + *s.pick(&["\n", "\n\n", " \n", "\r\n", "\n ", " "])
        }
        _ => {
            // Longer than any buffer.
            let unit = *s.pick(&["R U' ", "(L F2)3 ", "[R, U] ", "// é\n", "D2\n", "[F: R']2 . ", "R", "é ", "R) "]);
            let n = 100 + s.usize(3000);
            let mut t = unit.repeat(n);
            if s.bool() {
                let m = g::any_move(s);
                t += &g::spell_move(s, &m);
            }
            t
        }
    }
    .replace('\0', "")
}

fn c21_text(c: &mut Case) -> R {
    let t = text(&mut c.s);
    let want = ref_parse_alg(&t);
    c.describe(|| format!("{} {}", if want.is_some() { "valid" } else { "invalid" }, short(&t)));
    c.key(&t);
    c.nontrivial_if(t.len() >= 2);
    c.label(if want.is_some() { "valid" } else { "invalid" });
    c.label_if(t.len() > 4096, "longer than 4096 bytes");
    let expected = want.as_ref().map(|a| print_alg(&invert(a)) + "\n");
    let mut both = [None, None];
    for invert in [false, true] {
        for by_argument in [true, false] {
            let sub = if invert { "invert" } else { "parse" };
            let (args, f) = if by_argument {
                let f = unread(&mut c.s);
                (as_arguments(&mut c.s, sub, &t), f)
            } else {
                (vec![sub.to_owned(), "--stdin".to_owned()], feed(&mut c.s, &t))
            };
            let mut w = around(&mut c.s);
            w.out = *c.s.pick(&[Out::Pipe, Out::Pipe, Out::Pipe, Out::File, Out::Terminal]);
            c.label_if(matches!(f, Feed::Held(_)), "standard input stays open");
            c.label_if(matches!(f, Feed::Typed(_)), "typed at a terminal");
            c.label_if(w.out == Out::Terminal, "shown on a terminal");
            c.label_if(!w.vars.is_empty() || w.arg0.is_some(), "other surroundings");
            let a = run_tool_in(&args, &f, &w)?;
            let how = if by_argument { "given as an argument" } else { "on standard input" };
            let err = || String::from_utf8_lossy(&a.err).chars().take(300).collect::<String>();
            let code = if want.is_some() { 0 } else { 1 };
            ensure!(a.code == code, "alg {} of {} {} (in {:?}) exits with {} instead of {}: {}", sub, short(&t), how, w, a.code, code, err());
            if invert {
                let out = String::from_utf8_lossy(&a.out).into_owned();
                let want = expected.clone().unwrap_or_default();
                ensure!(a.out == want.as_bytes(), "alg invert of {} {} (in {:?}) prints {} instead of {}", short(&t), how, w, short(&out), short(&want));
            }
            both[invert as usize] = Some((a.code, a.out));
        }
    }
    Ok(())
}

/// Texts longer than pipes and buffers hold, on standard input.
fn c21_long(c: &mut Case) -> R {
    let unit = *c.s.pick(&["R U' ", "(L F2)3 ", "[R, U] ", "// é\n", "D2\n", "[F: R']2 . ", "// a longer comment, of which not much is parsed ∞∞∞∞∞∞∞\n", "                    y "]);
    let bits = c.s.range(12, 22);
    let bytes = ((1u64 << bits) + c.s.below(1 << bits)).min(3 << 20) as usize;
    let mut t = unit.repeat(bytes / unit.len() + 1);
    let spoilt = c.s.chance(1, 3);
    let m = g::any_move(&mut c.s);
    t += &if spoilt { ")".to_owned() } else { g::spell_move(&mut c.s, &m) };
    c.describe(|| format!("{} {}", if spoilt { "invalid" } else { "valid" }, short(&t)));
    c.key((unit, bytes, spoilt));
    c.nontrivial_if(t.len() > 65536);
    let want = ref_parse_alg(&t);
    c.label_if(t.len() > 1 << 20, "longer than 1 MiB");
    let invert_it = c.s.chance(3, 4);
    let sub = if invert_it { "invert" } else { "parse" };
    let f = feed(&mut c.s, &t);
    let w = Around { out: *c.s.pick(&[Out::Pipe, Out::File]), ..around(&mut c.s) };
    let a = run_tool_in(&[sub.to_owned(), "--stdin".to_owned()], &f, &w)?;
    let code = if want.is_some() { 0 } else { 1 };
    ensure!(a.code == code, "alg {} of {} on standard input exits with {} instead of {}", sub, short(&t), a.code, code);
    if invert_it {
        let w = want.as_ref().map(|a| print_alg(&invert(a)) + "\n").unwrap_or_default();
        ensure!(a.out == w.as_bytes(), "alg invert of {} on standard input prints {} instead of {}", short(&t), short(&String::from_utf8_lossy(&a.out)), short(&w));
    }
    Ok(())
}

fn c21_usage(c: &mut Case) -> R {
    let t = match c.s.weighted(&[3, 1]) {
        0 => {
            let a = g::text_alg(&mut c.s);
            g::spell_alg(&mut c.s, &a).replace('\0', "")
        }
        _ => text(&mut c.s),
    };
    let sub = *c.s.pick(&["parse", "invert"]);
    let which = c.s.usize(6);
    let dashed = t.starts_with('-');
    let both = c.s.bool();
    let mut args: Vec<String> = vec![sub.into()];
    let what = match which {
        0 => "neither",
        1 | 2 => {
            // Both; an option cannot follow `--`.
            if dashed || both {
                args.push("--stdin".into());
                if dashed || c.s.bool() {
                    args.push("--".into());
                }
                args.push(t.clone());
            } else {
                args.push(t.clone());
                args.push("--stdin".into());
            }
            "both"
        }
        3 => {
            args.push("--".into());
            args.push(t.clone());
            args.push(g::any_text(&mut c.s).replace('\0', ""));
            "two texts"
        }
        4 => {
            args.push(format!("--{}", c.s.pick(&["stdout", "std", "x", "alg"])));
            "unknown option"
        }
        _ => {
            args = vec![c.s.pick(&["pars", "inverse", "Parse", "", "R"]).to_string(), t.clone()];
            "unknown command"
        }
    };
    // Clap takes what is not an option as a text: only the first two kinds are what the property is about,
    // the others must at least not be taken for an answer.
    let f = feed(&mut c.s, &t);
    c.describe(|| format!("{}: {:?}", what, args.iter().map(|x| short(x)).collect::<Vec<_>>()));
    c.key((&args, what));
    c.nontrivial = true;
    c.label(what);
    let w = around(&mut c.s);
    let a = run_tool_in(&args, &f, &w)?;
    let err = String::from_utf8_lossy(&a.err).chars().take(300).collect::<String>();
    if what == "unknown option" && "--stdin".starts_with(args[1].as_str()) {
        // Abbreviations are clap's business.
        return Ok(());
    }
    ensure!(a.code == 2, "alg with {} ({:?}) exits with {} instead of a usage error (2): {}", what, args.iter().map(|x| short(x)).collect::<Vec<_>>(), a.code, err);
    ensure!(a.out.is_empty(), "alg with {} prints {} on standard output", what, short(&String::from_utf8_lossy(&a.out)));
    Ok(())
}

// ------------------------------------------------------------------------------------ C29

const COMMANDS: &[&str] = &["parse", "invert", "completions", "help"];
const SHELLS: &[&str] = &["bash", "elvish", "fish", "powershell", "zsh"];

/// What may stand at the end of the given words, a command line without its last word.
fn candidates(words: &[&str]) -> Option<Vec<&'static str>> {
    let cmd: Vec<&&str> = words[1..].iter().filter(|w| !w.starts_with('-')).collect();
    Some(match cmd.first().map(|w| **w) {
        None => [COMMANDS, &["-h", "--help", "-V", "--version"]].concat(),
        Some("parse" | "invert") => vec!["-h", "--help", "--stdin"],
        Some("completions") if cmd.len() == 1 => [SHELLS, &["-h", "--help"]].concat(),
        Some("help") if cmd.len() == 1 => COMMANDS.to_vec(),
        _ => return None,
    })
}

fn quoted(t: &str) -> String {
    format!("'{}'", t.replace('\'', "'\\''"))
}

/// Bash, with the printed script sourced, is asked to complete command lines.
fn c29_bash(c: &mut Case) -> R {
    let script = run_tool(&["completions".into(), "bash".into()], &Feed::None)?;
    ensure!(script.code == 0, "alg completions bash exits with {}", script.code);
    let n = 4 + c.s.usize(16);
    let mut queries: Vec<(Vec<&str>, String)> = vec![];
    for _ in 0..n {
        let mut words = vec!["alg"];
        match c.s.usize(6) {
            0 | 1 => {}
            x => {
                words.push(COMMANDS[(x - 2).min(3)]);
                if (words[1] == "parse" || words[1] == "invert") && c.s.chance(1, 4) {
                    words.push("--stdin");
                }
            }
        }
        let all = candidates(&words).unwrap();
        let w: &str = c.s.pick(&all);
        let mut part = w[..c.s.usize(w.len() + 1)].to_string();
        if c.s.chance(1, 5) {
            part.push_str(c.s.pick(&["x", "-", "e", "h", "P", "1", "_"]));
        }
        // The argument itself is the user's.
        if all.iter().all(|c| c.starts_with('-')) && !part.starts_with('-') {
            part = "-".into();
        }
        // What is complete already counts as typed.
        if COMMANDS.contains(&part.as_str()) {
            part.pop();
        }
        if words.len() > 2 && !part.starts_with('-') {
            continue;
        }
        queries.push((words, part));
    }
    c.describe(|| queries.iter().map(|(w, p)| format!("{} {}|", w.join(" "), p)).collect::<Vec<_>>().join("; "));
    c.key(&queries);
    c.nontrivial_if(queries.iter().any(|(w, p)| candidates(w).unwrap().iter().any(|x| x.starts_with(p.as_str()))));
    let mut text = String::from_utf8_lossy(&script.out).into_owned();
    text += "\nspec=$(complete -p alg) || { echo none; exit; }\nspec=${spec##* -F }; fn=${spec%% *}\n";
    for (w, p) in &queries {
        let all: Vec<String> = w.iter().map(|x| x.to_string()).chain([p.clone()]).map(|x| quoted(&x)).collect();
        text += &format!("COMP_WORDS=({}); COMP_CWORD={}; COMPREPLY=(); \"$fn\" alg {} {}; printf '%s\\n' \"${{COMPREPLY[@]}}\" ---\n", all.join(" "), w.len(), quoted(p), quoted(w.last().unwrap()));
    }
    let out = Command::new("/bin/bash").args(["--noprofile", "--norc", "-c", &text]).current_dir("/proc/self/fd").env_clear().env("PATH", "/usr/bin:/bin").output().map_err(|e| format!("harness: {}", e))?;
    let out = String::from_utf8_lossy(&out.stdout).into_owned();
    ensure!(!out.starts_with("none"), "the bash completions register nothing for `alg`");
    let answers: Vec<Vec<&str>> = out.split("---\n").map(|x| x.lines().filter(|l| !l.is_empty() && !l.starts_with('[')).collect()).collect();
    ensure!(answers.len() == queries.len() + 1, "the bash completions fail in bash: {:?}", out);
    for ((w, p), got) in queries.iter().zip(&answers) {
        let mut want: Vec<&str> = candidates(w).unwrap().into_iter().filter(|x| x.starts_with(p.as_str())).collect();
        let mut got = got.clone();
        want.sort();
        got.sort();
        got.dedup();
        ensure_eq!(got, want, "bash completes `{} {}` with", w.join(" "), p);
    }
    Ok(())
}

/// The scripts of all shells, and the help, whatever stands on standard input and in the environment.
fn c29_shells(c: &mut Case) -> R {
    let f = match c.s.chance(1, 6) {
        true => Feed::Held(b"R U )".to_vec()),
        false => feed(&mut c.s, "R U )"),
    };
    c.label_if(matches!(f, Feed::Held(_)), "standard input stays open");
    if c.s.chance(1, 3) {
        // Help and version.
        let cmd = *c.s.pick(COMMANDS);
        let long = c.s.bool();
        let flag = if long { "--help" } else { "-h" };
        let (args, want): (Vec<&str>, Vec<&str>) = match c.s.usize(5) {
            0 => (vec![flag], COMMANDS.to_vec()),
            1 => (vec!["help"], COMMANDS.to_vec()),
            2 if cmd != "help" => (vec![cmd, flag], if cmd == "completions" { SHELLS.to_vec() } else { vec!["--stdin", "[ALG]"] }),
            3 if cmd != "help" => (vec!["help", cmd], if cmd == "completions" { SHELLS.to_vec() } else { vec!["--stdin", "[ALG]"] }),
            _ => (vec![if long { "--version" } else { "-V" }], vec!["alg "]),
        };
        c.describe(|| args.join(" "));
        c.key((&args, format!("{:?}", f)));
        c.nontrivial = true;
        c.label("help");
        let w = around(&mut c.s);
        let a = run_tool_in(&args.iter().map(|x| x.to_string()).collect::<Vec<_>>(), &f, &w)?;
        let out = String::from_utf8_lossy(&a.out);
        ensure!(a.code == 0, "alg {} exits with {}", args.join(" "), a.code);
        for w in want {
            ensure!(out.contains(w), "the answer of alg {} does not mention {:?}: {}", args.join(" "), w, out);
        }
        return Ok(());
    }
    if c.s.chance(1, 4) {
        let (args, what): (Vec<String>, &str) = match c.s.usize(3) {
            0 => (vec![], "no command"),
            1 => (vec!["completions".into()], "no shell"),
            _ => (vec!["completions".into(), c.s.pick(&["sh", "Bash", "bas", "", "zsh2", "R"]).to_string()], "an unknown shell"),
        };
        c.describe(|| what.to_string());
        c.key((&args, format!("{:?}", f)));
        c.nontrivial = true;
        c.label(what);
        let w = around(&mut c.s);
        let a = run_tool_in(&args, &f, &w)?;
        ensure!(a.code == 2, "alg with {} exits with {} instead of a usage error (2)", what, a.code);
        ensure!(a.out.is_empty(), "alg with {} prints on standard output", what);
        return Ok(());
    }
    let shell = *c.s.pick(SHELLS);
    c.describe(|| shell.to_string());
    c.key((shell, format!("{:?}", f)));
    c.nontrivial = true;
    c.label(shell);
    let w = Around { out: *c.s.pick(&[Out::Pipe, Out::File, Out::Terminal]), ..around(&mut c.s) };
    let a = run_tool_in(&["completions".into(), shell.into()], &f, &w)?;
    let out = String::from_utf8_lossy(&a.out);
    ensure!(a.code == 0, "alg completions {} exits with {}", shell, a.code);
    // How each shell binds a completion to a command.
    let registration = match shell {
        "bash" => "complete -F ",
        "fish" => "complete -c alg ",
        "zsh" => "#compdef alg\n",
        "elvish" => "edit:completion:arg-completer[alg]",
        _ => "-CommandName 'alg'",
    };
    ensure!(out.contains(registration), "the {} completions do not register for `alg`: {}", shell, short(&out));
    for w in COMMANDS.iter().chain(&["help", "stdin", "version"]) {
        ensure!(out.contains(w), "the {} completions do not mention {:?}", shell, w);
    }
    let again = run_tool(&["completions".into(), shell.into()], &Feed::None)?;
    ensure!(again.out == a.out, "the {} completions differ from one run to the next", shell);
    Ok(())
}

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "The tool is built from /repo and run as a process. The script it prints for bash is sourced by bash, which is then asked to complete random beginnings of command lines (with and without a command, partial words of every candidate, words that nothing completes): what it offers must be exactly the commands, options and shells there are at that point. For all shells: the script binds to `alg`, mentions every command, is the same whatever stands on standard input, whatever the environment, directory and name it is run in, and on a pipe, in a file or on a terminal. Help, version and usage errors around them. Non-trivial: something is completed; distinct by questions.",
        assumptions: &["Only bash is installed: the scripts of the other shells are checked as text."],
        subs: vec![Sub::random("bash", 600, 12_000, c29_bash), Sub::random("shells", 600, 8_000, c29_shells)],
    }
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "The tool is built from /repo and run as a process. Every text (valid spellings of random algs, mutations, token soup, option-like and empty texts, texts with trailing newlines, texts longer than 4096 bytes) is given to `parse` and to `invert`, as an argument and on standard input (from a file, a pipe, a pipe in pieces, typed at a terminal), in various environments, directories and under other names, with output to a pipe, a file or a terminal, and exit codes and the whole standard output are compared with an independent parser, inverter and printer. Texts of up to 3 MiB are given on standard input. Usage errors: both, neither, two texts, unknown options and commands. Non-trivial: two bytes or more; distinct by text or arguments.",
        assumptions: &["Input is UTF-8 without NUL.", "Texts that begin with `-` are given after `--`, the usual convention.", "A usage error is exit code 2 with nothing on standard output."],
        subs: vec![Sub::random("texts", 3_000, 60_000, c21_text), Sub::random("long", 30, 1_000, c21_long), Sub::random("usage", 1_200, 20_000, c21_usage)],
    }
}
