//! Integer and string literals mined from the source of the code under test. They only steer the
//! generators towards values the code treats specially; no oracle depends on them.
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

pub struct Dict {
    pub ints: Vec<i64>,
    pub families: Vec<String>,
    pub strings: Vec<String>,
}

fn collect(dir: &Path, files: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            let n = e.file_name();
            if n != "target" && n != "tests" && n != "examples" && n != ".git" {
                collect(&p, files);
            }
        } else if p.extension().is_some_and(|x| x == "rs") {
            files.push(p);
        }
    }
}

pub fn repo_dir() -> String {
    std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".to_owned())
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        for d in ["cubing_core/src", "cubing/src", "cubing_macros/src", "alg_cli"] {
            collect(&Path::new(&repo_dir()).join(d), &mut files);
        }
        files.sort();
        let mut ints = BTreeSet::new();
        let mut strings = BTreeSet::new();
        for f in files {
            let Ok(text) = std::fs::read_to_string(&f) else { continue };
            // Unit tests are not part of the behaviour.
            let text = text.split("#[cfg(test)]").next().unwrap_or("").to_owned();
            for line in text.lines() {
                let t = line.trim_start();
                if t.starts_with("//") {
                    continue;
                }
                scan(line, &mut ints, &mut strings);
            }
        }
        let families = strings
            .iter()
            .filter(|s| !s.is_empty() && s.len() <= 24 && s.bytes().all(|b| b.is_ascii_alphabetic() || b == b'_'))
            .cloned()
            .collect();
        Dict { ints: ints.into_iter().collect(), families, strings: strings.into_iter().filter(|s| !s.is_empty() && s.len() <= 16).collect() }
    })
}

fn scan(line: &str, ints: &mut BTreeSet<i64>, strings: &mut BTreeSet<String>) {
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            return;
        }
        if c == b'"' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'"' {
                if b[j] == b'\\' {
                    j += 1;
                }
                j += 1;
            }
            if j <= b.len() {
                let s = &line[i + 1..j.min(line.len())];
                strings.insert(s.replace("\\n", "\n").replace("\\\"", "\""));
            }
            i = j + 1;
            continue;
        }
        if c == b'\'' && i + 2 < b.len() && b[i + 2] == b'\'' && b[i + 1].is_ascii() && b[i + 1] != b'\\' {
            strings.insert((b[i + 1] as char).to_string());
            i += 3;
            continue;
        }
        let prev_word = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if c.is_ascii_digit() && !prev_word {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            let tok: String = line[i..j].chars().filter(|c| *c != '_').collect();
            let v = if let Some(h) = tok.strip_prefix("0x") {
                let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                i64::from_str_radix(&h, 16).ok()
            } else {
                let d: String = tok.chars().take_while(|c| c.is_ascii_digit()).collect();
                d.parse().ok()
            };
            if let Some(v) = v {
                ints.insert(v);
            }
            i = j;
            continue;
        }
        if c < 0x80 {
            i += 1;
        } else {
            i += 1;
            while i < b.len() && b[i] & 0xc0 == 0x80 {
                i += 1;
            }
        }
    }
}
